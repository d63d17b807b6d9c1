// C24: the common index file format
#include "store.cpp"
#include "protobuf.h"
#include "ciff_lin.h"
#define main ciff_main
#define usage ciff_usage
#include "ciff_to_JASS.cpp"
#undef main
#undef usage
typedef std::vector<uint8_t> bytes;
static void put(bytes &b, uint64_t v, size_t length) { for (size_t i = 0; i < length; i++) b.push_back((uint8_t)((i < 9 ? v >> (7 * i) & 0x7F : v >> 63) | (i + 1 < length ? 0x80 : 0))); }
static size_t width(uint64_t v) { size_t n = 1; while (v >>= 7) n++; return n; }
static void put(bytes &b, uint64_t v) { put(b, v, width(v)); }
static void tag(bytes &b, unsigned field, unsigned type) { b.push_back((uint8_t)(field << 3 | type)); }
static void number(bytes &b, unsigned field, uint64_t v, size_t length = 0) { tag(b, field, 0); if (length) put(b, v, length); else put(b, v); }
static void blob(bytes &b, unsigned field, const bytes &what) { tag(b, field, 2); put(b, what.size()); b.insert(b.end(), what.begin(), what.end()); }
static void message(bytes &b, const bytes &what) { put(b, what.size()); b.insert(b.end(), what.begin(), what.end()); }
// a copy that ends where the input ends, so that a read past the end is seen
static const uint8_t *exact(const bytes &b) { uint8_t *p = (uint8_t *)malloc(b.size() ? b.size() : 1); if (b.size()) memcpy(p, b.data(), b.size()); return p; }
static uint64_t value(size_t length, const char *name) { uint64_t v = sym_u64(name); if (length < 10) sym_assume(v < 1ULL << (7 * length)); return v; }
// every primitive decodes what was encoded and moves on by what it read
extern "C" void primitives_harness(void) {
	bytes b; size_t kind = sym_choose(6, "kind"), length = 1 + sym_choose(10, "length"); if (kind > 2 && length > 1) sym_kill(); const uint8_t *at, *p; b.push_back(0x55); uint8_t after = sym_u8("after"); int ok;
	if (kind < 3) {
		uint64_t v = value(length, "value"); put(b, v, length); b.push_back(after); p = exact(b); at = p + 1; int64_t z = (int64_t)(v >> 1) ^ -(int64_t)(v & 1);
		if (kind == 0) { uint64_t got = protobuf::get_uint64_t(at); ok = got == v; sym_out(got); } else if (kind == 1) { uint64_t got = protobuf::get_int64_t(at); ok = (int64_t)got == z; sym_out(got); } else { int32_t got = protobuf::get_int32_t(at); ok = got == (int32_t)z; sym_out((uint32_t)got); }
		sym_check(ok, "a varint decodes to the value encoded"); sym_check(at == p + 1 + length, "and all of it is consumed");
	} else if (kind < 5) {
		uint64_t v = sym_u64("value"); size_t n = kind == 3 ? 8 : 4; for (size_t i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); p = exact(b); at = p + 1;
		if (kind == 3) { uint64_t got = protobuf::get_64_t(at); sym_check(got == v, "64 bits little-endian"); at = p + 1; double d = protobuf::get_double(at); memcpy(&got, &d, 8); sym_check(got == v, "a double keeps its bits"); } else sym_check(protobuf::get_32_t(at) == (uint32_t)v, "32 bits little-endian"); sym_check(at == p + b.size(), "all of it is consumed");
	} else {
		uint8_t v = sym_u8("tag"); sym_assume(v < 0x80); b.push_back(v); size_t n = sym_choose(4, "blob"); put(b, n); for (size_t i = 0; i < n; i++) b.push_back(sym_u8("byte")); p = exact(b); at = p + 1; protobuf::wire_type t; uint8_t f = protobuf::get_type_and_field(t, at); sym_check(both(t == (v & 7), f == v >> 3), "the field and its type"); slice s = protobuf::get_blob(at); sym_check(s.size() == n, "the length of a blob"); sym_check((const uint8_t *)s.address() == p + 3, "a blob follows its length"); sym_check(at == p + b.size(), "all of it is consumed");
	}
	sym_reach("decoded");
}
struct entry { bytes term; uint64_t df = 0, cf = 0; size_t n = 0; uint32_t id[4] = {0}, tf[4] = {0}; }; struct doc { uint32_t id = 0, length = 0; bytes key; };
struct ciff { int32_t version = 1, lists = 0, docs = 0, all_lists = 0, all_docs = 0; int64_t terms = 0; uint64_t mean = 0x4000000000000000ULL; bytes description; entry e[3]; doc d[3]; size_t wide = 0; bool reverse = false; };
static void pieces(bytes &b, std::vector<bytes> &part, bool reverse) { for (size_t i = 0; i < part.size(); i++) { bytes &x = part[reverse ? part.size() - 1 - i : i]; b.insert(b.end(), x.begin(), x.end()); } part.clear(); }
static bytes one(unsigned field, uint64_t v, size_t length = 0) { bytes b; number(b, field, v, length); return b; }
static bytes one(unsigned field, const bytes &what) { bytes b; blob(b, field, what); return b; }
static bytes text(const char *s) { return bytes((const uint8_t *)s, (const uint8_t *)s + strlen(s)); }
static const bytes NOTHING;
// damage names the message whose last field is replaced by one that no reader knows
static bytes encode(const ciff &c, size_t damage = ~(size_t)0, const bytes &bad = NOTHING) {
	bytes all, b; std::vector<bytes> part; part.push_back(one(1, (uint64_t)(int64_t)c.version)); part.push_back(one(2, (uint64_t)c.lists)); part.push_back(one(3, (uint64_t)c.docs)); part.push_back(one(4, (uint64_t)(int64_t)c.all_lists, c.wide)); part.push_back(one(5, (uint64_t)(int64_t)c.all_docs, c.wide)); part.push_back(one(6, (uint64_t)c.terms, c.wide)); bytes d; tag(d, 7, 1); for (int i = 0; i < 8; i++) d.push_back((uint8_t)(c.mean >> (8 * i))); part.push_back(d); part.push_back(one(8, c.description));
	pieces(b, part, c.reverse); size_t at = 0; if (at++ == damage) b.insert(b.end(), bad.begin(), bad.end()); message(all, b);
	for (int32_t i = 0; i < c.lists; i++) { const entry &e = c.e[i]; b.clear(); part.push_back(one(1, e.term)); part.push_back(one(2, e.df, c.wide)); part.push_back(one(3, e.cf, c.wide)); pieces(b, part, c.reverse);
		for (size_t j = 0; j < e.n; j++) { bytes inner; if (e.id[j] || c.wide) part.push_back(one(1, e.id[j], c.wide)); if (e.tf[j] || c.wide) part.push_back(one(2, e.tf[j], c.wide)); pieces(inner, part, c.reverse); blob(b, 4, inner); }
		if (at++ == damage) b.insert(b.end(), bad.begin(), bad.end()); message(all, b); }
	for (int32_t i = 0; i < c.docs; i++) { const doc &d = c.d[i]; b.clear(); part.push_back(one(1, d.id, c.wide)); part.push_back(one(2, d.key)); part.push_back(one(3, d.length, c.wide)); pieces(b, part, c.reverse); if (at++ == damage) b.insert(b.end(), bad.begin(), bad.end()); message(all, b); }
	return all;
}
static int same(const slice &s, const bytes &b) { if (s.size() != b.size()) return 0; int ok = 1; for (size_t i = 0; i < b.size(); i++) ok &= ((const uint8_t *)s.address())[i] == b[i]; return ok; }
static void check(ciff_lin::postings_list &p, const entry &e) {
	sym_check(same(p.term, e.term), "the term"); sym_check(both(p.document_frequency == e.df, p.collection_frequency == e.cf), "the frequencies of the term"); sym_check(p.postings.size() == e.n, "every posting"); if (p.postings.size() != e.n) return;
	int ok = 1; for (size_t j = 0; j < e.n; j++) { ok &= both(p.postings[j].docid == e.id[j], p.postings[j].term_frequency == e.tf[j]); sym_out(p.postings[j].docid); sym_out(p.postings[j].term_frequency); } sym_check(ok, "postings decode in order");
}
static void check(ciff_lin::doc_record &r, const doc &d) { sym_check(both((uint32_t)r.docid == d.id, (uint32_t)r.doclength == d.length), "the document's number and length"); sym_check(same(r.collection_docid, d.key), "the document's name"); sym_out((uint32_t)r.docid); sym_out((uint32_t)r.doclength); }
static void check(ciff_lin::header &h, const ciff &c) {
	sym_check(h.version == c.version, "version"); sym_check(both(h.num_postings_lists == c.lists, h.num_docs == c.docs), "how many lists and documents follow"); sym_check(both(h.total_postings_lists == c.all_lists, h.total_docs == c.all_docs), "how many lists and documents the collection has"); sym_check(h.total_terms_in_collection == c.terms, "how many terms the collection has"); uint64_t bits; memcpy(&bits, &h.average_doclength, 8); sym_check(bits == c.mean, "the mean document length"); sym_check(h.description.size() == c.description.size() && same(slice((void *)h.description.data(), h.description.size()), c.description), "the description");
}
static void decode(const ciff &c) {
	bytes b = encode(c); ciff_lin in(exact(b)); check(in.get_header(), c); size_t lists = 0, docs = 0;
	for (auto &p : in.postings()) { sym_check(lists < (size_t)c.lists, "no list that was not written"); if (lists >= (size_t)c.lists) return; check(p, c.e[lists++]); } sym_check(lists == (size_t)c.lists, "every list is delivered");
	for (auto &d : in.docrecords()) { sym_check(docs < (size_t)c.docs, "no document that was not written"); if (docs >= (size_t)c.docs) return; check(d, c.d[docs++]); } sym_check(docs == (size_t)c.docs, "every document is delivered");
	sym_check(in.status == ciff_lin::OK, "a well-formed index reads without error"); sym_reach("decoded");
}
// any values in one list and one document
extern "C" void values_harness(void) {
	ciff c; c.lists = c.docs = 1; static const size_t lengths[] = {5, 1, 2, 10}; c.wide = lengths[sym_choose(4, "length")]; c.reverse = sym_choose(2, "order"); uint64_t most = c.wide > 4 ? 0xFFFFFFFFULL : (1ULL << (7 * c.wide)) - 1; auto any = [&](const char *n) { uint32_t v = sym_u32(n); sym_assume(v <= most); return v; };
	entry &e = c.e[0]; e.df = c.wide == 10 ? sym_u64("df") : any("df"); e.cf = c.wide == 10 ? sym_u64("cf") : any("cf"); e.n = sym_arg("postings", 2); for (size_t i = 0; i < e.n; i++) { e.id[i] = any("docid"); e.tf[i] = any("frequency"); } size_t n = sym_choose(3, "term length"); for (size_t i = 0; i < n; i++) e.term.push_back(sym_u8("term"));
	doc &d = c.d[0]; d.id = any("document"); d.length = any("length"); n = sym_choose(3, "name length"); for (size_t i = 0; i < n; i++) d.key.push_back(sym_u8("name")); if (c.wide == 10) { sym_assume(d.id < 0x80000000u); } decode(c);
}
// the header: each field any value
extern "C" void header_harness(void) {
	ciff c; c.reverse = sym_choose(2, "order"); static const int64_t v[] = {0, 1, 127, 128, 2147483647, -1, -2147483647 - 1, 1LL << 40, -(1LL << 40)}; size_t which = sym_choose(6, "field"), kind = sym_choose(9, "value"); if (which < 3 && kind > 6) sym_kill();
	if (which == 0) c.version = (int32_t)v[kind]; else if (which == 1) c.all_lists = (int32_t)v[kind]; else if (which == 2) c.all_docs = (int32_t)v[kind]; else if (which == 3) c.terms = v[kind]; else if (which == 4) { double d = (double)v[kind] / 3; memcpy(&c.mean, &d, 8); } else { if (kind > 3) sym_kill(); for (size_t i = 0; i < kind; i++) c.description.push_back(sym_u8("description")); } decode(c);
}
static void outline(ciff &c, bool empty) {
	static const uint32_t n[] = {0, 1, 200, 70000}; c.lists = (int32_t)sym_choose(1 + sym_arg("lists", 2), "lists"); c.docs = (int32_t)sym_choose(1 + sym_arg("docs", 2), "docs"); c.reverse = sym_choose(2, "order");
	for (int32_t i = 0; i < c.lists; i++) { entry &e = c.e[i]; e.term = text(i ? "be" : "a"); e.n = sym_choose(1 + sym_arg("postings", 2), "postings"); if (!empty && !e.n) sym_kill(); e.df = e.n; for (size_t j = 0; j < e.n; j++) { e.id[j] = n[(i + 2 * j) % 4]; e.tf[j] = n[(j + 1 + i) % 4]; e.cf += e.tf[j]; } } for (int32_t i = 0; i < c.docs; i++) { c.d[i].id = i; c.d[i].key = text(i ? "" : "k1"); c.d[i].length = n[1 + i]; }
}
extern "C" void shape_harness(void) { ciff c; outline(c, true); decode(c); }
// a field that is not part of the format: an error, and the end
extern "C" void bad_harness(void) {
	ciff c; outline(c, true); size_t messages = 1 + (size_t)c.lists + (size_t)c.docs, where = sym_choose(5, "damaged message"); if (where >= messages) sym_kill(); bytes bad; if (sym_choose(2, "damage")) number(bad, 15, 3); else { tag(bad, 1, 5); put(bad, 0, 4); }
	bytes b = encode(c, where, bad); ciff_lin in(exact(b)); size_t lists = 0, docs = 0;
	if (where == 0) { sym_check(in.status == ciff_lin::FAIL, "a malformed header is an error"); sym_reach("refused"); return; }
	for (auto &p : in.postings()) { (void)p; lists++; sym_check(lists <= (size_t)c.lists, "the postings end"); if (lists > (size_t)c.lists) return; }
	if (where <= (size_t)c.lists) { sym_check(lists == where, "nothing follows a malformed list"); sym_check(in.status == ciff_lin::FAIL, "a malformed list is an error"); sym_reach("refused"); return; }
	sym_check(in.status == ciff_lin::OK, "no error before the malformed document"); for (auto &d : in.docrecords()) { (void)d; docs++; sym_check(docs <= (size_t)c.docs, "the documents end"); if (docs > (size_t)c.docs) return; }
	sym_check(docs < where - (size_t)c.lists, "nothing follows a malformed document, which is not delivered"); sym_check(in.status == ciff_lin::FAIL, "a malformed document is an error"); sym_reach("refused");
}
// input that ends early: never read past its end
extern "C" void truncated_harness(void) {
	ciff c; c.lists = c.docs = 1; c.e[0].term = text("a"); c.e[0].n = 1; c.e[0].id[0] = 300; c.e[0].tf[0] = 1; c.d[0].key = text("k"); bytes b = encode(c); size_t keep = sym_choose(b.size() - 1, "bytes kept") + 1; b.resize(keep); ciff_lin in(exact(b)); size_t n = 0;
	for (auto &p : in.postings()) { n += p.postings.size(); if (in.status == ciff_lin::FAIL) break; } for (auto &d : in.docrecords()) { n += d.doclength; if (in.status == ciff_lin::FAIL) break; } sym_out(n); sym_reach("ended");
}
// the importer: what the index on disk holds is what the message said
extern "C" void sym_tables(void);
extern "C" void import_harness(void) {
	sym_tables(); ciff c; size_t docs = 1 + sym_choose(sym_arg("docs", 3), "docs"), terms = sym_choose(1 + sym_arg("terms", 2), "terms"); static const uint32_t tf[] = {0, 1, 2, 255}; size_t kinds = sym_arg("counts", 3); c.docs = c.all_docs = (int32_t)docs; c.lists = c.all_lists = (int32_t)terms; std::vector<list> want; std::vector<std::string> keys;
	for (size_t t = 0; t < terms; t++) { entry &e = c.e[t]; list l; l.word = t ? "be" : "a"; e.term = text(l.word.c_str()); size_t last = 0; for (size_t d = 0; d < docs; d++) { uint32_t f = tf[sym_choose(kinds, "frequency")]; if (!f) continue; e.id[e.n] = (uint32_t)(e.n ? d - last : d); e.tf[e.n++] = f; last = d; l.id[l.n] = (integer)(d + 1); l.impact[l.n++] = (impact_t)f; e.cf += f; } e.df = e.n; if (l.n) want.push_back(l); }
	for (size_t d = 0; d < docs; d++) { c.d[d].id = (uint32_t)d; std::string k = d == 0 ? "first" : d == 1 ? "2" : "doc-three"; c.d[d].key = text(k.c_str()); c.d[d].length = (uint32_t)(3 + d); keys.push_back(k); }
	if (want.empty()) sym_kill(); bytes b = encode(c); FILE *fp = fopen("in.ciff", "wb"); fwrite(b.data(), 1, b.size(), fp); fclose(fp); shape s = {1 + sym_choose(2, "version"), 1, 1}; const char *argv[] = {"ciff_to_JASS", "in.ciff", "-passthrough", "-2", nullptr}; sym_check(ciff_main(s.version == 2 ? 4 : 3, argv) == 0, "the import succeeds");
	auto r = load(s, docs, want, keys); for (auto &l : want) compare(*r, l, docs, 1); sym_reach("imported");
}
