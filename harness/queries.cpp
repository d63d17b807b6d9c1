// C14: query parsing against a reference, and against the document tokeniser
#include "sym.h"
#include <stdio.h>
#include <string.h>
#include <string>
#include "parser.h"
#include "parser_query.h"
#include "allocator_pool.h"
#include "document.h"
using namespace JASS;
extern "C" void sym_tables(void);
static int up(uint8_t c) { return both(c >= 'A', c <= 'Z'); }
static int alpha(uint8_t c) { return either(up(c), both(c >= 'a', c <= 'z')); }
static int digit(uint8_t c) { return both(c >= '0', c <= '9'); }
static int space(uint8_t c) { return either(c == ' ', both(c >= 9, c <= 13)); }
static uint8_t low(uint8_t c) { return up(c) ? c | 32 : c; }
// an allocator that gives exactly what is asked for, so that writing past it is found
struct exact_allocator : allocator { void *malloc(size_t n, size_t = 0) override { return ::operator new(n); } void rewind(void) override {} bool operator==(const allocator &) override { return true; } bool operator!=(const allocator &) override { return false; } };
struct fake_string { char *p; size_t n; const char *c_str() const { return p; } size_t size() const { return n; } };
struct term { uint8_t b[40]; size_t n = 0; size_t f = 0; };
struct terms { term t[12]; size_t n = 0; void start() { t[n].n = 0; t[n].f = 1; n++; } void put(uint8_t c) { t[n - 1].b[t[n - 1].n++] = c; } void put(const char *s) { while (*s) put((uint8_t)*s++); } };
static int equal(const uint8_t *a, const uint8_t *b, size_t n) { int ok = 1; for (size_t i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
static query_term_list *fresh() { return new query_term_list; }
static void compare(query_term_list &q, terms &w) { // every wanted term (with repeats) against what was parsed
	size_t got = q.size(), total = 0; const query_term *prev = nullptr; sym_check(got <= w.n, "no more distinct terms than terms");
	for (auto &t : q) {
		slice s = t.token(); const uint8_t *a = (const uint8_t *)s.address(); size_t hits = 0; for (size_t i = 0; i < w.n; i++) if (w.t[i].n == s.size()) hits += equal(w.t[i].b, a, s.size()); for (size_t i = 0; i < s.size(); i++) sym_out(a[i]);
		sym_check(hits != 0, "every parsed term is in the query"); sym_check(t.frequency() == hits, "each term comes with the number of times it occurs"); total += t.frequency(); sym_out(t.frequency());
		if (prev) { slice p = prev->token(); int less = p.size() < s.size(); if (p.size() == s.size()) { less = 0; int eq = 1; const uint8_t *x = (const uint8_t *)p.address(); for (size_t i = 0; i < s.size(); i++) { less |= both(eq, x[i] < a[i]); eq &= x[i] == a[i]; } } sym_check(less, "terms are sorted and distinct"); } prev = &t;
	}
	sym_check(total == w.n, "no term of the query is lost"); sym_reach("parsed");
}
static void parse(query_term_list &q, const uint8_t *p, size_t n, parser_query::parser_type type = parser_query::query) { exact_allocator *mem = new exact_allocator; parser_query pq(*mem); fake_string s; s.p = new char[n + 1]; memcpy(s.p, p, n); s.p[n] = 0; s.n = n; pq.parse(q, s, type); }
// every ASCII query
extern "C" void ascii_harness(void) {
	query_term_list *q = fresh(); sym_tables(); size_t n = sym_choose(sym_arg("n", 4) + 1, "n"); uint8_t s[16]; for (size_t i = 0; i < n; i++) { s[i] = sym_u8("c"); sym_assume(both(s[i] < 0x80, s[i] != 0)); if (n > 1) sym_assume(!alpha(s[i]) | (low(s[i]) == 'a') | (low(s[i]) == 'z')); if (n > 1) sym_assume(!digit(s[i]) | (s[i] == '0') | (s[i] == '9')); }
	terms w; size_t i = 0; while (i < n) { if (alpha(s[i])) { w.start(); while (i < n && alpha(s[i])) w.put(low(s[i++])); } else if (digit(s[i])) { w.start(); while (i < n && digit(s[i])) w.put(s[i++]); } else i++; }
	parse(*q, s, n); compare(*q, w);
}
// words from a small vocabulary: repeats and ties
extern "C" void words_harness(void) {
	query_term_list *q = fresh(); sym_tables(); size_t n = 1 + sym_choose(sym_arg("n", 4), "n"); uint8_t s[64]; size_t at = 0; terms w; for (size_t i = 0; i < n; i++) { if (i) s[at++] = ' '; w.start(); for (size_t k = 1 + sym_choose(2, "length"); k; k--) { uint8_t c = sym_range('a', 'b', "c"); s[at++] = sym_choose(2, "upper") ? c - 32 : c; w.put(c); } } parse(*q, s, at); compare(*q, w);
}
struct unit { const char *bytes; char cls; const char *folded; };
static const unit U[] = {{"\xC3\x89", 'A', "e"}, {"\xC3\x9F", 'A', "ss"}, {"\xC2\xB2", 'D', "2"}, {"\xE3\x80\x80", 'S', ""}, {"\xE2\x80\x94", 'S', ""}, {"\xEF\xAC\x83", 'A', "ffi"}, {"\xE4\xB8\xAD", 'A', "\xE4\xB8\xAD"}, {"\xF0\x90\x90\x80", 'A', "\xF0\x90\x90\xA8"}, {"a", 'A', "a"}, {"B", 'A', "b"}, {"7", 'D', "7"}, {" ", 'S', ""}, {"-", 'S', ""}, {"<", 'S', ""}};
// multi-byte characters, and agreement with the document tokeniser on the same text
extern "C" void unicode_harness(void) {
	query_term_list *q = fresh(); sym_tables(); size_t n = 1 + sym_choose(sym_arg("n", 3), "n"); uint8_t s[32]; size_t at = 0; terms w; char prev = 0; int markup = 0;
	for (size_t i = 0; i < n; i++) { const unit &u = U[sym_choose(sizeof(U) / sizeof(*U), "unit")]; for (const char *b = u.bytes; *b; b++) s[at++] = (uint8_t)*b; if (*u.bytes == '<') markup = 1; if (u.cls != 'S') { if (prev != u.cls) w.start(); w.put(u.folded); } prev = u.cls; }
	parse(*q, s, at); compare(*q, w);
	if (!markup) { parser p; document *d = new document; uint8_t *x = new uint8_t[at]; memcpy(x, s, at); d->contents = slice(x, at); p.set_document(*d); size_t k = 0; for (;;) { auto &t = p.get_next_token(); if (t.type == parser::token::eof) break; if (t.type != parser::token::alpha && t.type != parser::token::numeric) continue; sym_check(k < w.n, "documents and queries have the same terms"); slice l = t.lexeme; sym_check(l.size() == w.t[k].n, "documents and queries have the same terms"); sym_check(equal(w.t[k].b, (const uint8_t *)l.address(), l.size()), "documents and queries have the same terms"); k++; } sym_check(k == w.n, "documents and queries have the same terms"); sym_reach("agrees"); }
}
// the raw parser: terms are what lies between white space, unchanged
extern "C" void raw_harness(void) {
	query_term_list *q = fresh(); size_t n = sym_choose(sym_arg("n", 4) + 1, "n"); uint8_t s[16]; for (size_t i = 0; i < n; i++) { s[i] = sym_u8("c"); sym_assume(s[i] != 0); }
	terms w; size_t i = 0; while (i < n) { if (space(s[i])) { i++; continue; } w.start(); while (i < n && !space(s[i])) w.put(s[i++]); } parse(*q, s, n, parser_query::raw); compare(*q, w);
}
// the longest expansion: n copies of the character that folds to 18 code points fill the buffer as far as any query can
extern "C" void expand_harness(void) {
	query_term_list *q = fresh(); sym_tables(); size_t n = 1 + sym_choose(3, "n"); uint8_t s[16]; size_t at = 0; for (size_t i = 0; i < n; i++) { s[at++] = 0xEF; s[at++] = 0xB7; s[at++] = 0xBA; if (i + 1 < n && sym_choose(2, "space")) s[at++] = sym_range(' ', '/', "c"); }
	parse(*q, s, at); size_t total = 0; for (auto &t : *q) total += t.frequency(); sym_check(total >= 1, "the terms are there"); for (auto &t : *q) sym_out(t.token().size()); sym_reach("parsed");
}
