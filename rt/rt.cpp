// Models (compiled to IR and executed symbolically) of the libc and libstdc++ functions whose bodies are not in headers.
#include <stddef.h>
#include <stdint.h>
#include <map>
#include <unordered_map>
#include <initializer_list>
#include <bits/hashtable_policy.h>
extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
static inline int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strpbrk(const char *s, const char *set) { for (; *s; s++) for (const char *t = set; *t; t++) if (*s == *t) return (char *)s; return nullptr; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return nullptr; }
void *memmem(const void *h, size_t hl, const void *n, size_t nl) { const char *a = (const char *)h; for (size_t i = 0; i + nl <= hl; i++) { size_t j = 0; while (j < nl && a[i + j] == ((const char *)n)[j]) j++; if (j == nl) return (void *)(a + i); } return nullptr; }
char *strstr(const char *h, const char *n) { for (;; h++) { size_t j = 0; while (n[j] && h[j] == n[j]) j++; if (!n[j]) return (char *)h; if (!*h) return nullptr; } }
void *malloc(size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return c == ' ' | (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) | (c >= 'a' && c <= 'f') | (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int tolower(int c) { return lc(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
unsigned long long strtoull(const char *s, char **e, int base) {
	const char *b = s; while (isspace((unsigned char)*s)) s++; bool neg = false; if (*s == '+' || *s == '-') neg = *s++ == '-';
	if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit((unsigned char)s[2])) { s += 2; base = 16; } else if (base == 0) base = *s == '0' ? 8 : 10;
	unsigned long long v = 0; bool any = false, ov = false;
	for (;; s++) { int c = (unsigned char)*s, d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = lc(c) - 'a' + 10; else break; if (d >= base) break; any = true; if (v > (~0ULL - d) / base) ov = true; v = v * base + d; }
	if (e) *e = (char *)(any ? s : b); if (ov) return ~0ULL; return neg ? 0 - v : v; }
long long strtoll(const char *s, char **e, int base) {
	const char *b = s; while (isspace((unsigned char)*s)) s++; bool neg = false; if (*s == '+' || *s == '-') neg = *s++ == '-';
	if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && isxdigit((unsigned char)s[2])) { s += 2; base = 16; } else if (base == 0) base = *s == '0' ? 8 : 10;
	unsigned long long v = 0; bool any = false, ov = false; unsigned long long lim = neg ? 1ULL << 63 : (1ULL << 63) - 1;
	for (;; s++) { int c = (unsigned char)*s, d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = lc(c) - 'a' + 10; else break; if (d >= base) break; any = true; if (v > (lim - d) / base) ov = true; if (!ov) v = v * base + d; }
	if (e) *e = (char *)(any ? s : b); if (ov) v = lim; return (long long)(neg ? 0 - v : v); }
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
long atol(const char *s) { return strtol(s, nullptr, 10); }
long long atoll(const char *s) { return strtoll(s, nullptr, 10); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
double strtod(const char *s, char **e) { // decimal digits, point, exponent: exact for short inputs
	const char *b = s; while (isspace((unsigned char)*s)) s++; bool neg = false; if (*s == '+' || *s == '-') neg = *s++ == '-'; double v = 0; bool any = false;
	uint64_t m = 0; int sc = 0; for (; isdigit((unsigned char)*s); s++) { m = m * 10 + (*s - '0'); any = true; } if (*s == '.') { s++; for (; isdigit((unsigned char)*s); s++) { m = m * 10 + (*s - '0'); sc++; any = true; } }
	v = (double)m; double p = 1; for (int i = 0; i < sc; i++) p *= 10; v /= p; if (e) *e = (char *)(any ? s : b); return neg ? -v : v; }
double atof(const char *s) { return strtod(s, nullptr); }
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { // insertion sort (stable)
	char *b = (char *)base; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = b[j * sz + k]; b[j * sz + k] = t; } }
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *)base + m * sz; int c = cmp(key, p); if (!c) return (void *)p; if (c < 0) hi = m; else lo = m + 1; } return nullptr; }
}
// ---- libstdc++ red-black tree helpers (src/c++98/tree.cc), same algorithm
namespace std {
typedef _Rb_tree_node_base *P;
P _Rb_tree_increment(P x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { P y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<P>(x)); }
P _Rb_tree_decrement(P x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { P y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { P y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<P>(x)); }
static void rl(P const x, P &root) { P const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rr(P const x, P &root) { P const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, P x, P p, _Rb_tree_node_base &h) throw() {
	P &root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
	if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
	while (x != root && x->_M_parent->_M_color == _S_red) { P const xpp = x->_M_parent->_M_parent;
		if (x->_M_parent == xpp->_M_left) { P const y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rr(xpp, root); } }
		else { P const y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rl(xpp, root); } } }
	root->_M_color = _S_black; }
P _Rb_tree_rebalance_for_erase(P const z, _Rb_tree_node_base &h) throw() { // erase without rebalancing colours (tree order is preserved, which is all that is observable)
	P &root = h._M_parent; P &lm = h._M_left; P &rm = h._M_right; P y = z, x = 0, xp = 0;
	if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
	if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
	else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x; if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { P t = x; while (t->_M_left) t = t->_M_left; lm = t; } } if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { P t = x; while (t->_M_right) t = t->_M_right; rm = t; } } }
	return y; }
namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { static const size_t pr[] = {1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 47, 59, 71, 83, 97, 127, 173, 239, 331, 461, 641, 907, 1283, 1811, 2557, 3617, 5113, 7237, 10247, 14489, 20483, 28979, 40973, 57943, 81937, 115877, 163861}; for (size_t p : pr) if (p >= n) { _M_next_resize = (size_t)(p * (double)_M_max_load_factor); return p; } return n; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ins) const { if (ne + ins > _M_next_resize) { size_t mn = ne + ins; if (_M_next_resize == 0 && mn < 11) mn = 11; if (mn >= nb) { size_t g = nb * 2; return {true, _M_next_bkt(mn + 1 > g ? mn + 1 : g)}; } _M_next_resize = (size_t)(nb * (double)_M_max_load_factor); return {false, 0}; } return {false, 0}; }
}
std::size_t _Hash_bytes(const void *p, std::size_t n, std::size_t seed) { const unsigned char *s = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 131 + s[i]; return h; }
}
#include <pthread.h>
extern "C" int pthread_attr_init(pthread_attr_t *a) noexcept { for (size_t i = 0; i < sizeof(*a); i++) ((char *)a)[i] = 0; return 0; }
extern "C" int pthread_attr_setstacksize(pthread_attr_t *, size_t) noexcept { return 0; }
extern "C" int pthread_attr_destroy(pthread_attr_t *) noexcept { return 0; }
// typeinfo of the fundamental types (libsupc++ holds these)
struct sym_typeinfo { const void *table; const char *name; };
extern const sym_typeinfo sym_ti_b asm("_ZTIb"); const sym_typeinfo sym_ti_b = {nullptr, "b"};
extern const sym_typeinfo sym_ti_c asm("_ZTIc"); const sym_typeinfo sym_ti_c = {nullptr, "c"};
extern const sym_typeinfo sym_ti_a asm("_ZTIa"); const sym_typeinfo sym_ti_a = {nullptr, "a"};
extern const sym_typeinfo sym_ti_h asm("_ZTIh"); const sym_typeinfo sym_ti_h = {nullptr, "h"};
extern const sym_typeinfo sym_ti_s asm("_ZTIs"); const sym_typeinfo sym_ti_s = {nullptr, "s"};
extern const sym_typeinfo sym_ti_t asm("_ZTIt"); const sym_typeinfo sym_ti_t = {nullptr, "t"};
extern const sym_typeinfo sym_ti_i asm("_ZTIi"); const sym_typeinfo sym_ti_i = {nullptr, "i"};
extern const sym_typeinfo sym_ti_j asm("_ZTIj"); const sym_typeinfo sym_ti_j = {nullptr, "j"};
extern const sym_typeinfo sym_ti_l asm("_ZTIl"); const sym_typeinfo sym_ti_l = {nullptr, "l"};
extern const sym_typeinfo sym_ti_m asm("_ZTIm"); const sym_typeinfo sym_ti_m = {nullptr, "m"};
extern const sym_typeinfo sym_ti_x asm("_ZTIx"); const sym_typeinfo sym_ti_x = {nullptr, "x"};
extern const sym_typeinfo sym_ti_y asm("_ZTIy"); const sym_typeinfo sym_ti_y = {nullptr, "y"};
extern const sym_typeinfo sym_ti_f asm("_ZTIf"); const sym_typeinfo sym_ti_f = {nullptr, "f"};
extern const sym_typeinfo sym_ti_d asm("_ZTId"); const sym_typeinfo sym_ti_d = {nullptr, "d"};
extern const sym_typeinfo sym_ti_e asm("_ZTIe"); const sym_typeinfo sym_ti_e = {nullptr, "e"};
extern const sym_typeinfo sym_ti_w asm("_ZTIw"); const sym_typeinfo sym_ti_w = {nullptr, "w"};
extern const sym_typeinfo sym_ti_v asm("_ZTIv"); const sym_typeinfo sym_ti_v = {nullptr, "v"};
