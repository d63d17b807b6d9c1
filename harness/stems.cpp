// C21: the Porter stemmer against the algorithm as published (M.F. Porter, An algorithm for suffix stripping, Program 14(3), 1980)
#include "sym.h"
#include <string.h>
#include "stem_porter.h"
using namespace JASS;
static int plain(uint8_t c) { return either(either(c == 'a', c == 'e'), either(either(c == 'i', c == 'o'), c == 'u')); }
struct word {                                  // the word as it is being stemmed, with which of its letters are vowels
	uint8_t b[48]; int v[48]; size_t n;
	void classify(size_t from) { for (size_t i = from; i < n; i++) v[i] = i == 0 ? plain(b[0]) : either(plain(b[i]), both(b[i] == 'y', !v[i - 1])); }
	size_t m(size_t len) const { size_t k = 0; for (size_t i = 1; i < len; i++) k += both(v[i - 1], !v[i]); return k; }
	int vowel(size_t len) const { int any = 0; for (size_t i = 0; i < len; i++) any |= v[i]; return any; }
	int dbl() const { return n >= 2 ? both(b[n - 1] == b[n - 2], both(!v[n - 1], !v[n - 2])) : 0; }
	int o(size_t len) const { if (len < 3) return 0; uint8_t c = b[len - 1]; return both(both(!v[len - 3], v[len - 2]), both(!v[len - 1], !either(c == 'w', either(c == 'x', c == 'y')))); }
	int ends(const char *s) const { size_t k = strlen(s); if (k > n) return 0; int ok = 1; for (size_t i = 0; i < k; i++) ok &= b[n - k + i] == (uint8_t)s[i]; return ok; }
	void cut(size_t k, const char *s) { n -= k; size_t from = n; while (*s) b[n++] = (uint8_t)*s++; classify(from); }
};
struct rule { const char *from, *to; };
static const rule two[] = {{"ational", "ate"}, {"tional", "tion"}, {"enci", "ence"}, {"anci", "ance"}, {"izer", "ize"}, {"abli", "able"}, {"alli", "al"}, {"entli", "ent"}, {"eli", "e"}, {"ousli", "ous"}, {"ization", "ize"}, {"ation", "ate"}, {"ator", "ate"}, {"alism", "al"}, {"iveness", "ive"}, {"fulness", "ful"}, {"ousness", "ous"}, {"aliti", "al"}, {"iviti", "ive"}, {"biliti", "ble"}};
static const rule three[] = {{"icate", "ic"}, {"ative", ""}, {"alize", "al"}, {"iciti", "ic"}, {"ical", "ic"}, {"ful", ""}, {"ness", ""}};
static const rule four[] = {{"al", ""}, {"ance", ""}, {"ence", ""}, {"er", ""}, {"ic", ""}, {"able", ""}, {"ible", ""}, {"ant", ""}, {"ement", ""}, {"ment", ""}, {"ent", ""}, {"ion", ""}, {"ou", ""}, {"ism", ""}, {"ate", ""}, {"iti", ""}, {"ous", ""}, {"ive", ""}, {"ize", ""}};
// the rule with the longest matching suffix is the only one tried
template <size_t N> static void step(word &w, const rule (&r)[N], size_t least, int is_four = 0) {
	for (size_t len = 7; len >= 2; len--) for (size_t i = 0; i < N; i++) if (strlen(r[i].from) == len && w.ends(r[i].from)) {
		size_t stem = w.n - len; int ok = w.m(stem) > least; if (is_four && r[i].from[0] == 'i' && r[i].from[1] == 'o') ok = both(ok, stem > 0 ? either(w.b[stem - 1] == 's', w.b[stem - 1] == 't') : 0);
		if (ok) w.cut(len, r[i].to); return;
	}
}
static void porter(word &w) {
	if (w.ends("sses")) w.cut(2, ""); else if (w.ends("ies")) w.cut(2, ""); else if (w.ends("ss")) {} else if (w.ends("s")) w.cut(1, "");
	int more = 0; if (w.ends("eed")) { if (w.m(w.n - 3) > 0) w.cut(1, ""); } else if (w.ends("ed")) { if (w.vowel(w.n - 2)) { w.cut(2, ""); more = 1; } } else if (w.ends("ing")) { if (w.vowel(w.n - 3)) { w.cut(3, ""); more = 1; } }
	if (more) {
		if (w.ends("at") || w.ends("bl") || w.ends("iz")) w.cut(0, "e");
		else if (w.dbl()) { uint8_t c = w.b[w.n - 1]; if (!either(c == 'l', either(c == 's', c == 'z'))) w.cut(1, ""); }
		else if (both(w.m(w.n) == 1, w.o(w.n))) w.cut(0, "e");
	}
	if (w.ends("y")) if (w.vowel(w.n - 1)) w.cut(1, "i");
	step(w, two, 0); step(w, three, 0); step(w, four, 1, 1);
	if (w.ends("e")) { size_t k = w.m(w.n - 1); if (either(k > 1, both(k == 1, !w.o(w.n - 1)))) w.cut(1, ""); }
	if (w.ends("ll")) if (w.m(w.n) > 1) w.cut(1, "");
}
static void run(const uint8_t *s, size_t n) {
	word w; w.n = n; for (size_t i = 0; i < n; i++) w.b[i] = s[i]; w.classify(0); porter(w);
	char *from = new char[n], *to = new char[n + 1]; memcpy(from, s, n); stem_porter st; size_t got = st.tostem(to, from, n);
	sym_check(got <= n, "a stem is no longer than its word"); sym_check(got == w.n, "the stem is as long as Porter's"); int ok = 1; for (size_t i = 0; i < got; i++) ok &= (uint8_t)to[i] == w.b[i];
	sym_check(ok, "the stem is Porter's"); sym_check(to[got] == 0, "the stem is terminated"); sym_out(got); sym_reach("stemmed");
}
// every word of up to n lower case letters
extern "C" void free_harness(void) { size_t n = sym_choose(sym_arg("n", 3) + 1, "n"); uint8_t s[16]; for (size_t i = 0; i < n; i++) s[i] = (uint8_t)sym_range('a', 'z', "c"); run(s, n); }
static const char *const S[] = {"s", "sses", "ies", "ss", "eed", "ed", "ing", "ated", "bled", "izing", "y", "ly", "ational", "tional", "enci", "anci", "izer", "abli", "alli", "entli", "eli", "ousli", "ization", "ation", "ator", "alism", "iveness", "fulness", "ousness", "aliti", "iviti", "biliti",
	"icate", "ative", "alize", "iciti", "ical", "ful", "ness", "al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ion", "sion", "tion", "ou", "ism", "ate", "iti", "ous", "ive", "ize", "e", "ll", "le", "lle", "lling", "zzed", "ations", "icational", "fulnesses", "yed", "yying"};
// every stem of 0..n letters out of an alphabet with a letter of each kind, before each suffix
static uint8_t letter() { static const char A[] = "abeltsyxiz"; uint64_t k = sym_range(0, sym_arg("kinds", 8) - 1, "letter"); uint8_t c = A[0]; for (uint64_t i = 1; i < 10; i++) c = (k == i) ? (uint8_t)A[i] : c; return c; }
extern "C" void suffix_harness(void) {
	size_t all = sizeof(S) / sizeof(*S); const char *x = S[sym_choose(all, "suffix")]; size_t n = sym_choose(sym_arg("n", 3) + 1, "n"); uint8_t s[32]; for (size_t i = 0; i < n; i++) s[i] = letter(); for (; *x; x++) s[n++] = (uint8_t)*x; run(s, n);
}
// stemming a token in place, as the indexer does: nothing beyond the token's buffer is touched
extern "C" void token_harness(void) {
	parser::token *t = new parser::token; size_t cap = sizeof(t->buffer), n = cap - sym_choose(4, "short of full"); for (size_t i = 0; i < n; i++) t->buffer[i] = 'b'; for (size_t i = 1; i <= 3; i++) t->buffer[n - i] = (uint8_t)sym_range('a', 'z', "c");
	t->type = parser::token::alpha; t->lexeme = slice(t->buffer, n); stem_porter st; size_t got = st.tostem(*t, *t);
	sym_check(t->lexeme.size() == got, "the stem is the new lexeme"); sym_check(got <= n, "a stem is no longer than its word"); sym_check(got + 4 >= n, "only the suffix goes"); sym_check(t->lexeme.address() == (void *)t->buffer, "the stem is in the token"); sym_check(t->type == parser::token::alpha, "the type of the token is untouched");
	sym_out(got); sym_reach("stemmed");
}
