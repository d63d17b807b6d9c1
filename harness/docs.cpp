// C13: the document tokenisers against a reference; every document is a heap block of exactly its size, so reading outside it is found
#include "sym.h"
#include <stdio.h>
#include <string.h>
#include <vector>
#include <iostream>
#include "parser.h"
#include "parser_fasta.h"
#include "parser_unicoil_json.h"
#include "document.h"
using namespace JASS;
extern "C" void sym_tables(void);
typedef parser::token T;
static int up(uint8_t c) { return both(c >= 'A', c <= 'Z'); }
static int alpha(uint8_t c) { return either(up(c), both(c >= 'a', c <= 'z')); }
static int digit(uint8_t c) { return both(c >= '0', c <= '9'); }
static int space(uint8_t c) { return either(c == ' ', both(c >= 9, c <= 13)); }
static uint8_t low(uint8_t c) { return up(c) ? c | 32 : c; }
struct doc { uint8_t *p; size_t n = 0, cap; doc(size_t cap) : cap(cap) { p = new uint8_t[cap]; } void add(uint8_t c) { p[n++] = c; } void add(const char *s) { while (*s) add((uint8_t)*s++); } uint8_t *exact() { uint8_t *q = new uint8_t[n]; memcpy(q, p, n); return q; } };
static document &docof(doc &d) { document *x = new document; x->contents = slice(d.exact(), d.n); return *x; }
struct expect { T::token_type type; uint8_t b[16]; size_t n; };
struct list { expect e[24]; size_t n = 0; void start(T::token_type t) { e[n].type = t; e[n].n = 0; n++; } void put(uint8_t c) { e[n - 1].b[e[n - 1].n++] = c; } void put(const char *s) { while (*s) put((uint8_t)*s++); } };
static void inside(parser &p, const T &t) { (void)p; if (t.lexeme.size()) { const uint8_t *a = (const uint8_t *)t.lexeme.address(); sym_check(both(a >= t.buffer, a + t.lexeme.size() <= t.buffer + sizeof(t.buffer)), "a lexeme lies inside the token buffer"); } }
static void compare(parser &p, list &l) {
	for (size_t i = 0; i < l.n; i++) {
		const T &t = p.get_next_token(); sym_check(t.type == l.e[i].type, "token type"); sym_check(t.lexeme.size() == l.e[i].n, "token length"); inside(p, t); int ok = 1; const uint8_t *a = (const uint8_t *)t.lexeme.address(); for (size_t k = 0; k < l.e[i].n && k < t.lexeme.size(); k++) { ok &= a[k] == l.e[i].b[k]; sym_out(a[k]); } sym_check(ok, "token text");
		sym_check(t.count == 1, "each token counts once");
	}
	for (int i = 0; i < 2; i++) sym_check(p.get_next_token().type == T::eof, "nothing after the last token"); sym_reach("tokens");
}
// text without markup: every ASCII byte except '<'
static void text(doc &d, list &l) {
	size_t i = 0; uint8_t *c = d.p; while (i < d.n) {
		if (space(c[i])) { i++; continue; }
		if (alpha(c[i])) { l.start(T::alpha); while (i < d.n && alpha(c[i])) l.put(low(c[i++])); }
		else if (digit(c[i])) { l.start(T::numeric); while (i < d.n && digit(c[i])) l.put(c[i++]); }
		else { l.start(T::other); l.put(c[i++]); }
	}
}
extern "C" void text_harness(void) {
	sym_tables(); size_t n = sym_choose(sym_arg("n", 4) + 1, "n"); doc d(n + 1); for (size_t i = 0; i < n; i++) { uint8_t c = sym_u8("c"); sym_assume(both(c < 0x80, c != '<')); d.add(c); }
	list l; text(d, l); parser p; p.set_document(docof(d)); compare(p, l);
}
// two documents through one parser, the first abandoned at any point, and the string form of set_document
extern "C" void again_harness(void) {
	sym_tables(); parser p; doc a(8); for (size_t i = 0, n = 1 + sym_choose(2, "first"); i < n; i++) { a.add(sym_range('a', 'z', "c")); a.add(' '); } p.set_document(docof(a)); for (size_t k = sym_choose(4, "taken"); k; k--) p.get_next_token();
	doc d(8); for (size_t i = 0, n = sym_choose(3, "second"); i < n; i++) { uint8_t c = sym_u8("c"); sym_assume(both(both(c < 0x80, c != '<'), c != 0)); d.add(c); } list l; text(d, l);
	if (sym_choose(2, "string")) { std::string *s = new std::string; for (size_t i = 0; i < d.n; i++) s->push_back((char)d.p[i]); p.set_document(*s); } else p.set_document(docof(d)); compare(p, l);
}
// units: ASCII bytes and multi-byte characters with their hand-written class and folded form. 'A' letter, 'D' digit, 'S' space, 'O' other, 'B' broken (one byte is skipped)
struct unit { const char *bytes; char cls; const char *folded; };
static const unit U[] = {
	{"\xC3\x89", 'A', "e"}, {"\xC3\x9F", 'A', "ss"}, {"\xC2\xB2", 'D', "2"}, {"\xE3\x80\x80", 'S', ""}, {"\xE2\x80\x94", 'O', ""}, {"\xFF", 'B', ""}, {"\xC3", 'B', ""}, {"\x80", 'B', ""},
	{"\xC3\xA9", 'A', "e"}, {"\xD0\x96", 'A', "\xD0\xB6"}, {"\xEF\xAC\x83", 'A', "ffi"}, {"\xE4\xB8\xAD", 'A', "\xE4\xB8\xAD"}, {"\xF0\x90\x90\x80", 'A', "\xF0\x90\x90\xA8"}, {"\xEF\xBC\xA1", 'A', "a"}, {"\xC2\xA0", 'S', ""}, {"\xF0\x9F\x98\x80", 'O', ""}};
extern "C" void unicode_harness(void) {
	sym_tables(); size_t n = 1 + sym_choose(sym_arg("n", 3), "n"), kinds = sym_arg("kinds", sizeof(U) / sizeof(*U)); doc d(32); list l; size_t last = 0; char prev = 0; // prev: class of the run being built
	for (size_t i = 0; i < n; i++) {
		size_t k = sym_choose(kinds + 3, "unit"); if (i && k == 7 && last == 6) sym_kill(); last = k; char cls; const char *f; char one[2] = {0, 0};
		if (k < kinds) { d.add(U[k].bytes); cls = U[k].cls; f = U[k].folded; } else { uint8_t c = k == kinds ? sym_range('A', 'z', "c") : k == kinds + 1 ? sym_range('0', '9', "c") : sym_range(' ', '/', "c"); if (k == kinds) sym_assume(alpha(c)); cls = k == kinds ? 'A' : k == kinds + 1 ? 'D' : 'O'; if (k == kinds + 2 && c == ' ') cls = 'S'; d.add(c); one[0] = (char)low(c); f = one; }
		if (cls == 'A') { if (prev != 'A') l.start(T::alpha); l.put(f); } else if (cls == 'D') { if (prev != 'D') l.start(T::numeric); l.put(f); } else if (cls != 'S') { l.start(T::other); l.put(f); }
		prev = cls == 'A' || cls == 'D' ? cls : 0;
	}
	parser p; p.set_document(docof(d)); compare(p, l);
}
// well formed markup between two pieces of text
static void name(doc &d, list &l, int first) { size_t k = sym_choose(3, "name"); uint8_t c = k == 0 ? sym_range('a', 'z', "letter") : k == 1 ? sym_range('A', 'Z', "letter") : first ? '_' : sym_range('-', '.', "punct"); d.add(c); l.put(c); }
static void junk(doc &d, list *l, const char *allowed, size_t most) { for (size_t n = sym_choose(most + 1, "length"); n; n--) { uint8_t c = (uint8_t)allowed[sym_choose(strlen(allowed), "c")]; d.add(c); if (l) l->put(c); } }
static void piece(doc &d, list &l) { if (sym_choose(2, "text")) { uint8_t c = sym_range('a', 'z', "t"); d.add(c); l.start(T::alpha); l.put(c); } }
extern "C" void markup_harness(void) {
	sym_tables(); doc d(64); list l; piece(d, l); d.add('<');
	switch (sym_arg("bang", 0) ? 8 : sym_choose(9, "kind")) {
	case 0: case 1: { // start or empty tag, with an attribute perhaps
		l.start(T::xml_start_tag); size_t me = l.n - 1; name(d, l, 1); if (sym_choose(2, "longer")) name(d, l, 0);
		if (sym_choose(2, "attribute")) { d.add(" a="); char q = sym_choose(2, "quote") ? '"' : '\''; d.add(q); junk(d, nullptr, q == '"' ? "'>/x" : "\">/x", 2); d.add(q); }
		if (sym_choose(2, "empty")) { d.add('/'); l.e[me].type = T::xml_empty_tag; } d.add('>'); break; }
	case 2: l.start(T::xml_end_tag); d.add('/'); name(d, l, 1); junk(d, &l, "a -\"", 2); d.add('>'); break;
	case 3: l.start(T::xml_comment); d.add("!--"); junk(d, &l, "a<> ", 3); d.add("-->"); break;
	case 4: l.start(T::xml_cdata); d.add("![CDATA["); junk(d, &l, "a<>]", 2); d.add("]]>"); if (d.p[d.n - 4] == ']') sym_kill(); break;
	case 5: l.start(T::xml_definition); d.add("!"); { uint8_t c = sym_range('A', 'Z', "letter"); d.add(c); l.put(c); } junk(d, &l, "a <\"", 3); d.add('>'); break;
	case 6: l.start(T::xml_processing_instruction); d.add("?"); junk(d, &l, "a >!", 3); d.add("?>"); break;
	case 7: l.start(T::xml_conditional); d.add("!["); junk(d, &l, "aI ]", 2); d.add("[aa "); if (d.n < 8) sym_kill(); l.start(T::alpha); l.put("aa"); break;
	default: { size_t bang = sym_arg("bang", 0); if (!bang) { l.start(T::other); l.put('<'); } uint8_t c = sym_range('0', '9', "digit"); size_t k = sym_arg("bang", 0) ? 2 : sym_choose(3, "after"); if (k == 2 && !sym_arg("bang", 0)) k = 3; if (k == 1) { d.add('/'); l.start(T::other); l.put('/'); } if (k == 2) { d.add('!'); l.start(T::other); l.put('!'); } if (k == 3) { d.add('-'); l.start(T::other); l.put('-'); } d.add(c); l.start(T::numeric); l.put(c); d.add(' '); break; }
	}
	piece(d, l); parser p; document &x = docof(d); p.set_document(x); if (!sym_arg("bang", 0)) { compare(p, l); return; }
	// "<!" that starts no markup: the tokens are these, after a '<'
	int has = 0; for (size_t i = 0; i < 8; i++) { const T &t = p.get_next_token(); if (t.type == T::eof) break; if (t.type == T::other && t.lexeme.size() == 1 && *(const uint8_t *)t.lexeme.address() == '<') has = 1; }
	p.set_document(x); if (!has) compare(p, l); sym_check(has, "the '<' of a \"<!\" that starts no markup is a token"); sym_reach("tokens");
}
// any bytes at all: the end is reached, every token but white space consumes something, nothing outside is touched
extern "C" void any_harness(void) {
	sym_tables(); size_t n = 1 + sym_choose(sym_arg("n", 3), "n"), pre = sym_choose(9, "prefix"); static const char *P[] = {"", "<", "</", "<a", "<a '", "<?", "<!", "<!--", "<![CDATA["}; doc d(n + 16); d.add(P[pre]); for (size_t i = 0; i < n; i++) { uint8_t c = sym_u8("c"); sym_assume(either(c < 0x80, c >= 0xF8)); d.add(c); }
	parser p; p.set_document(docof(d)); size_t k = 0; for (; k <= d.n; k++) { const T &t = p.get_next_token(); if (t.type == T::eof) break; inside(p, t); sym_check(t.lexeme.size() <= d.n, "a token is no longer than the document"); } sym_check(k <= d.n, "no more tokens than bytes: the end is reached"); sym_check(p.get_next_token().type == T::eof, "the end is the end"); sym_reach("any");
}
// tokens at and beyond the size of the token buffer
extern "C" void long_harness(void) {
	sym_tables(); static const char *open[] = {"", "", "<", "</", "<!--", "<![CDATA[", "<!A", "<?", ""}, *close[] = {" ", " ", ">", ">", "-->", "]]>", ">", "?>", " "}; static const T::token_type ty[] = {T::alpha, T::numeric, T::xml_start_tag, T::xml_end_tag, T::xml_comment, T::xml_cdata, T::xml_definition, T::xml_processing_instruction, T::alpha};
	size_t kind = sym_choose(9, "kind"), len = 1018 + sym_choose(10, "length"), max = parser::token::max_token_length, extra = kind == 6; doc d(len * 2 + 32); d.add(open[kind]); uint8_t c = kind == 1 ? sym_range('0', '9', "c") : sym_range('a', 'z', "c"), e = kind == 1 ? sym_range('0', '9', "last") : sym_range('a', 'z', "last");
	for (size_t i = 0; i + 1 < len; i++) if (kind == 8) d.add("\xD0\x96"); else d.add(c); if (kind == 8) d.add("\xD0\x96"); else d.add(e); d.add(close[kind]); d.add("z");
	parser p; p.set_document(docof(d)); const T &t = p.get_next_token(); size_t full = kind == 8 ? 2 * len : len + extra, want = full < max ? full : max; sym_check(t.type == ty[kind], "token type"); sym_check(t.lexeme.size() == want, "a token longer than the buffer is cut to the size of the buffer"); inside(p, t);
	const uint8_t *a = (const uint8_t *)t.lexeme.address(); int ok = 1; for (size_t i = extra; i < want; i++) ok &= kind == 8 ? a[i] == (i & 1 ? 0xB6 : 0xD0) : i + 1 == full ? a[i] == e : a[i] == c; sym_check(ok, "token text");
	const T &z = p.get_next_token(); sym_check(both(z.type == T::alpha, z.lexeme.size() == 1), "the text after a long token is next"); sym_check(*(const uint8_t *)z.lexeme.address() == 'z', "the text after a long token is next"); sym_check(p.get_next_token().type == T::eof, "nothing after the last token"); sym_reach("long");
}
// FASTA: the description line as text, then every k-mer (k consecutive bases, white space ignored, not across any other character) in order
extern "C" void fasta_harness(void) {
	sym_tables(); size_t k = 1 + sym_choose(3, "k"), n = sym_choose(sym_arg("n", 5) + 1, "n"); static const char *H[] = {">a", ">a7", ">7.", ">", ""}; doc d(n + 16); list l; size_t h = sym_choose(5, "header"); for (const char *s = H[h]; *s; s++) { d.add(*s); l.start(*s == 'a' ? T::alpha : *s == '7' ? T::numeric : T::other); l.put(*s); }
	if (sym_choose(2, "sequence")) { d.add('\n'); size_t base = d.n; static const char alphabet[] = "AcgT\n-n"; for (size_t i = 0; i < n; i++) d.add(alphabet[sym_choose(7, "base")]);
		for (size_t i = base; i < d.n; i++) { uint8_t w[4]; size_t got = 0; if (strchr("AcgT", d.p[i]) == nullptr) continue; for (size_t j = i; j < d.n && got < k; j++) { if (d.p[j] == '\n') continue; if (strchr("AcgT", d.p[j]) == nullptr) break; w[got++] = d.p[j] | 32; } if (got == k) { l.start(T::alpha); for (size_t j = 0; j < k; j++) l.put(w[j]); } } }
	parser_fasta p(k); p.set_document(docof(d)); compare(p, l);
}
// JSON term/weight pairs
extern "C" void unicoil_harness(void) {
	size_t n = sym_choose(sym_arg("n", 2) + 1, "n"); doc d(128); struct { uint8_t b[8]; size_t n; unsigned w; } want[4]; size_t m = 0;
	for (size_t i = 0; i < n; i++) { auto &x = want[m]; x.n = 0; x.w = 0; d.add(i ? ", \"" : "\""); for (size_t t = n > 1 ? 1 : 1 + sym_choose(2, "term"); t; t--) switch (sym_choose(n > 1 ? i + 1 : 3, "letter")) { case 0: { uint8_t c = sym_range('a', 'z', "c"); d.add(c); x.b[x.n++] = c; break; } case 1: d.add("\\\""); x.b[x.n++] = '\\'; x.b[x.n++] = '"'; break; default: { uint8_t c = sym_range('0', '9', "c"); d.add(c); x.b[x.n++] = c; } }
		d.add(sym_choose(2, "space") ? "\": " : "\":"); static const size_t DG[] = {1, 2, 4, 5}; size_t digits = DG[sym_choose(n > 1 ? i ? 1 : 2 : 4, "digits")]; for (size_t k = 0; k < digits; k++) { uint8_t c = digits > 1 ? (uint8_t)"019"[sym_choose(3, "digit")] : (uint8_t)sym_range('0', '9', "digit"); if (digits > 2 && k == 0) c = '1'; d.add(c); x.w = x.w * 10 + (c - '0'); } x.w = sym_concretize(x.w); if (x.w) m++; }
	if (sym_choose(2, "tail")) d.add(sym_choose(2, "tail") ? '\n' : '}'); parser_unicoil_json p; p.set_document(docof(d)); size_t cap = index_postings_impact::largest_impact;
	for (size_t i = 0; i < m; i++) { const T &t = p.get_next_token(); sym_check(t.type == T::alpha, "token type"); sym_check(t.lexeme.size() == want[i].n, "token length"); int ok = 1; for (size_t k = 0; k < want[i].n && k < t.lexeme.size(); k++) ok &= ((const uint8_t *)t.lexeme.address())[k] == want[i].b[k]; sym_check(ok, "token text"); sym_check(t.count == (want[i].w > cap ? cap : want[i].w), "the weight is that of the document, capped at the largest impact"); sym_out(t.count); }
	sym_check(p.get_next_token().type == T::eof, "nothing after the last token"); sym_reach("tokens");
}
