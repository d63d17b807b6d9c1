// C20: slices, hashes, boxed pointers and the containers built on them
#include "sym.h"
#include <vector>
#include <string.h>
#include "slice.h"
#include "hash_pearson.h"
#include "pointer_box.h"
#include "binary_tree.h"
#include "hash_table.h"
#include "dynamic_array.h"
using namespace JASS;
static slice sym_slice(size_t mx, const char *nm, unsigned alphabet = 256) { size_t n = sym_choose(mx + 1, nm); uint8_t *p = new uint8_t[n + 1]; if (alphabet == 256) sym_bytes(p, n, nm); else for (size_t i = 0; i < n; i++) p[i] = sym_range(0, alphabet - 1, nm); return slice(p, n); }
static int same(const slice &a, const slice &b) { if (a.size() != b.size()) return 0; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok &= ((uint8_t *)a.address())[i] == ((uint8_t *)b.address())[i]; return ok; }
// -1, 0, 1 by unsigned bytes, shorter first on a common prefix
static int lex(const slice &a, const slice &b) { size_t n = a.size() < b.size() ? a.size() : b.size(); int r = 0; for (size_t i = n; i-- > 0;) { int x = a[i], y = b[i]; int ne = x != y; r = ne * ((x > y) - (x < y)) + (1 - ne) * (i + 1 == n ? (a.size() > b.size()) - (a.size() < b.size()) : r); } if (n == 0) r = (a.size() > b.size()) - (a.size() < b.size()); return r; }
extern "C" void slice_harness(void) {
	size_t mx = sym_arg("n", 3); slice a = sym_slice(mx, "a"), b = sym_slice(mx, "b"); int eq = same(a, b), o = lex(a, b);
	int lt = a < b, gt = a > b, e = a == b, sw = slice::strict_weak_order_less_than(a, b), sv = slice::strict_weak_order_less_than(b, a);
	sym_check(e == eq, "== is equality of contents"); sym_check(lt + gt + e == 1, "exactly one of <, ==, > holds"); sym_check((b < a) == gt, "< and > mirror each other");
	sym_check(sw == (o < 0), "strict_weak_order_less_than is lexicographic"); sym_check(sv == (o > 0), "strict_weak_order_less_than is lexicographic both ways"); sym_check(!either(both(a.size() < b.size(), !lt), both(a.size() > b.size(), !gt)), "a shorter slice sorts first");
	allocator_pool pool(256); slice c(pool, a); sym_check(same(a, c) && (a.size() == 0 || c.address() != a.address()), "a pool copy holds the same bytes"); sym_out(lt); sym_out(gt); sym_reach("slice");
}
extern "C" void slice_order_harness(void) {
	size_t mx = sym_arg("n", 2); slice a = sym_slice(mx, "a"), b = sym_slice(mx, "b"), c = sym_slice(mx, "c");
	int ab = a < b, bc = b < c, ac = a < c; sym_check(!both(both(ab, bc), !ac), "< is transitive"); sym_reach("order");
}
extern "C" void hash_harness(void) {
	size_t mx = sym_arg("n", 5), n = sym_choose(mx + 1, "n"); uint8_t *p = new uint8_t[n + 1], *q = new uint8_t[n + 1]; sym_bytes(p, n, "p"); for (size_t i = 0; i < n; i++) q[i] = p[i];
	size_t h8 = hash_pearson::hash<8>(slice(p, n)), h16 = hash_pearson::hash<16>(slice(p, n)), h24 = hash_pearson::hash<24>(slice(p, n)), h32 = hash_pearson::hash<32>(slice(p, n));
	sym_check(both(h8 < (1u << 8), both(h16 < (1u << 16), h24 < (1u << 24))) && h32 < (1ULL << 32), "hash values fit the table they index");
	sym_check(both(both(h8 == hash_pearson::hash<8>(q, n), h16 == hash_pearson::hash<16>(q, n)), both(h24 == hash_pearson::hash<24>(q, n), h32 == hash_pearson::hash<32>(q, n))), "equal strings hash equally");
	sym_out(h8); sym_out(h16); sym_reach("hash");
}
// strings of one length that differ in one byte never share a hash
extern "C" void hash_one_harness(void) {
	size_t n = 1 + sym_choose(sym_arg("n", 3), "n"), at = sym_choose(n, "at"); uint8_t *p = new uint8_t[n], *q = new uint8_t[n]; sym_bytes(p, n, "p"); for (size_t i = 0; i < n; i++) q[i] = p[i]; q[at] = sym_u8("other"); sym_assume(q[at] != p[at]);
	switch (sym_choose(4, "bits")) { case 0: sym_check(hash_pearson::hash<8>(p, n) != hash_pearson::hash<8>(q, n), "8-bit hash separates a one byte change"); break; case 1: sym_check(hash_pearson::hash<16>(p, n) != hash_pearson::hash<16>(q, n), "16-bit hash separates a one byte change"); break; case 2: sym_check(hash_pearson::hash<24>(p, n) != hash_pearson::hash<24>(q, n), "24-bit hash separates a one byte change"); break; default: sym_check(hash_pearson::hash<32>(p, n) != hash_pearson::hash<32>(q, n), "32-bit hash separates a one byte change"); } sym_reach("hash");
}
extern "C" void box_harness(void) {
	static uint32_t v[3]; uint32_t val[3]; for (int i = 0; i < 3; i++) v[i] = val[i] = sym_u32("v"); pointer_box<uint32_t> b[3]; for (int i = 0; i < 3; i++) b[i] = &v[i];
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
		int want = either(val[i] < val[j], both(val[i] == val[j], i < j)), back = either(val[j] < val[i], both(val[i] == val[j], j < i)), eq = i == j;
		sym_check(both(both((b[i] < b[j]) == want, (b[i] > b[j]) == back), both((b[i] <= b[j]) == either(want, eq), (b[i] >= b[j]) == either(back, eq))) && (b[i] == b[j]) == eq && (b[i] != b[j]) == !eq, "boxed pointers order by value, then address");
		int c = b[i].compare(b[j]); sym_check(both((c < 0) == want, (c > 0) == back), "compare agrees with the operators");
	}
	sym_reach("box");
}
struct element { uint64_t v; element(allocator &) : v(0) {} };
template <typename M> static void visit(M &m, const std::vector<slice> &keys, const std::vector<uint64_t> &want, bool ordered) {
	size_t distinct = 0; for (size_t i = 0; i < keys.size(); i++) { int dup = 0; for (size_t j = 0; j < i; j++) dup |= same(keys[i], keys[j]); distinct += !dup; }
	size_t seen = 0; slice last; int ok = 1, ord = 1;
	for (const auto &kv : m) { int hit = 0; for (size_t i = 0; i < keys.size(); i++) hit |= both(same(keys[i], kv.first), want[i] == kv.second.v); ok &= hit; if (seen && ordered) ord &= kv.first < last; last = slice(kv.first.address(), kv.first.size()); if (++seen > keys.size()) break; }
	sym_check(seen == distinct, "iteration visits every key once"); sym_check(ok, "iteration pairs every key with its own element"); sym_check(ord, "the tree is walked in order");
}
template <typename M> static void map_history(M &m, size_t n, size_t len, bool ordered) {
	std::vector<slice> keys; std::vector<uint64_t> want;
	for (size_t i = 0; i < n; i++) {
		slice k = sym_slice(len, "key"); int there = 0; uint64_t was = 0; for (size_t j = 0; j < i; j++) { int s = same(keys[j], k); there |= s; was = s ? want[j] : was; }
		element &e = m[k]; sym_check(e.v == was, "a key finds its own element, a new key a fresh one"); e.v = i + 1; keys.push_back(k); want.push_back(i + 1); for (size_t j = 0; j < i; j++) { int s = same(keys[j], k); want[j] = s ? i + 1 : want[j]; }
	}
	for (size_t i = 0; i < n; i++) sym_check(m[keys[i]].v == want[i], "every key still finds its element");
	visit(m, keys, want, ordered); sym_reach("map");
}
extern "C" void tree_harness(void) { allocator_pool pool(4096); binary_tree<slice, element> t(pool); map_history(t, sym_arg("n", 3), sym_arg("len", 1), true); }
// the hash table: keys from a set chosen so that three of them share a slot
extern "C" void table_harness(void) {
	allocator_pool pool(4096); hash_table<slice, element, 8> t(pool); static char two[65536][2]; size_t h = hash_pearson::hash<8>("a", 1), found = 0; slice set[6] = {slice(""), slice("a"), slice("b"), slice("ab")};
	for (unsigned i = 0; i < 65536 && found < 2; i++) { two[i][0] = i >> 8; two[i][1] = i; if (hash_pearson::hash<8>(two[i], 2) == h) set[4 + found++] = slice(two[i], 2); }
	size_t n = sym_arg("n", 4); std::vector<slice> keys; std::vector<uint64_t> want;
	for (size_t i = 0; i < n; i++) {
		slice k = set[sym_choose(6, "key")]; uint64_t was = 0; for (size_t j = 0; j < i; j++) if (same(keys[j], k)) was = want[j];
		element &e = t[k]; sym_check(e.v == was, "a key finds its own element, a new key a fresh one"); e.v = sym_u64("v"); keys.push_back(k); want.push_back(e.v); for (size_t j = 0; j < i; j++) if (same(keys[j], k)) want[j] = e.v;
	}
	for (size_t i = 0; i < n; i++) sym_check(t[keys[i]].v == want[i], "every key still finds its element");
	visit(t, keys, want, false); sym_reach("map");
}
extern "C" void array_harness(void) {
	allocator_pool pool(4096); size_t first = 1 + sym_choose(3, "initial"), n = sym_choose(sym_arg("n", 6) + 1, "n"); dynamic_array<uint32_t> a(pool, first, sym_choose(2, "growth") ? 1.5 : 1.0); std::vector<uint32_t> v;
	for (size_t i = 0; i < n; i++) { uint32_t x = sym_u32("x"); a.push_back(x); v.push_back(x); sym_check(a.back() == x, "back is the last element pushed"); }
	for (size_t i = 0; i < n; i++) sym_check(a[i] == v[i], "elements are found by position");
	size_t at = 0; int ok = 1; for (const auto &x : a) { if (at < n) ok &= x == v[at]; if (++at > n) break; } sym_check(at == n, "iteration visits every element"); sym_check(ok, "iteration is in order");
	sym_check(a.serialise(nullptr, 0) == n, "serialise reports the size needed"); size_t space = sym_choose(n + 2, "space"); uint32_t *out = new uint32_t[space]; sym_check(a.serialise(out, space) == n, "serialise reports the size needed"); ok = 1; for (size_t i = 0; i < n && i < space; i++) ok &= out[i] == v[i]; sym_check(ok, "serialise copies as much as fits, in order"); delete[] out; sym_reach("array");
}
