// C09: an index written to disk reads back as what was written
#include "store.h"
static void compare(deserialised_jass_v1 &r, const list &l, size_t docs, size_t times) {
	query_term term(sl(l.word), times); deserialised_jass_v1::metadata m; bool found = r.postings_details(m, term); sym_check(found, "a term that was written is found"); if (!found) return;
	size_t distinct = 0; uint32_t lo = ~0u, hi = 0; for (size_t i = 0; i < l.n; i++) { bool seen = false; for (size_t j = 0; j < i; j++) seen = seen || l.impact[j] == l.impact[i]; distinct += !seen; if (l.impact[i] < lo) lo = l.impact[i]; if (l.impact[i] > hi) hi = l.impact[i]; }
	sym_check(m.impacts == distinct, "a segment for each distinct impact"); if (m.impacts != distinct) return;
	deserialised_jass_v1::segment_header seg[MOST + 2]; uint32_t smallest, largest; query::DOCID_TYPE df; size_t n = r.get_segment_list(seg, m, times, smallest, largest, df);
	sym_check(n == distinct, "a header for each segment"); sym_check(df == l.n, "the document frequency"); sym_check(both(smallest == lo * times, largest == hi * times), "the smallest and largest impact");
	std::string name; int32_t d; auto codec = r.codex(name, d); size_t left = l.n;
	for (size_t s = 0; s < n; s++) {
		if (s) sym_check(seg[s].impact < seg[s - 1].impact, "segments go from high impact to low"); std::vector<integer> want; for (size_t i = 0; i < l.n; i++) if (l.impact[i] * times == seg[s].impact) want.push_back(l.id[i] - 1);
		sym_check(want.size() == seg[s].segment_frequency && !want.empty(), "each segment holds the documents with its impact"); if (want.size() != seg[s].segment_frequency) return; left -= want.size();
		size_t room = 64 * 16 + docs; integer *into = new integer[room]; codec->decode(into, want.size(), r.postings() + seg[s].offset, seg[s].end - seg[s].offset);
		integer at = 0; int ok = 1; for (size_t i = 0; i < want.size(); i++) { at += into[i]; ok &= at == want[i]; sym_out(at); } sym_check(ok, "document ids read back in order"); delete [] into;
	}
	sym_check(left == 0, "no posting is lost");
}
static std::unique_ptr<deserialised_jass_v1> load(const shape &s, size_t docs, const std::vector<list> &lists, const std::vector<std::string> &keys) {
	std::unique_ptr<deserialised_jass_v1> r(s.version == 1 ? new deserialised_jass_v1 : new deserialised_jass_v2); size_t ok = r->read_index(""); sym_check(ok == 1, "the index loads"); if (!ok) sym_stop();
	sym_check(r->document_count() == docs, "the number of documents"); auto &k = r->primary_keys(); sym_check(k.size() >= keys.size(), "a key for each document"); for (size_t i = 0; i < keys.size() && i < k.size(); i++) sym_check(k[i] == keys[i], "primary keys read back in order");
	size_t terms = 0; for (auto t = r->begin(); t != r->end(); ++t) terms++; sym_check(terms == lists.size(), "each term once"); return r;
}
// any impacts, documents far apart
extern "C" void postings_harness(void) {
	shape s = pick(); static const impact_t impacts[] = {0, 1, 2, 1023, 255, 256}; static const integer ids[] = {1, 2, 131, 300, 301, 302}; size_t slots = sym_arg("docs", 4), kinds = sym_arg("impacts", 4), docs = 302, times = 1 + sym_choose(2, "query frequency");
	std::vector<list> lists(2); lists[0].word = "ab"; lists[1].word = "b"; for (size_t i = 0; i < slots; i++) { impact_t v = impacts[sym_choose(kinds, "impact")]; if (v) { lists[0].id[lists[0].n] = ids[i]; lists[0].impact[lists[0].n++] = v; } }
	if (!lists[0].n) sym_kill(); lists[1].n = 1; lists[1].id[0] = docs; lists[1].impact[0] = 7; std::vector<std::string> keys; for (size_t i = 0; i < docs; i++) keys.push_back(i % 100 ? "k" : "key");
	save(s, docs, lists, keys); auto r = load(s, docs, lists, keys); compare(*r, lists[0], docs, times); compare(*r, lists[1], docs, 1);
	for (const char *w : {"a", "abc", "aa", "c", ""}) { deserialised_jass_v1::metadata m; std::string other(w); sym_check(!r->postings_details(m, query_term(sl(other))), "a term that was not written is not found"); } sym_reach("read");
}
// any documents: the gaps are arbitrary, so is the codec's input
extern "C" void gaps_harness(void) {
	shape s = pick(); size_t n = 1 + sym_choose(sym_arg("n", 2), "n"), docs = 1000; std::vector<list> lists(1); lists[0].word = "w"; integer at = 0; for (size_t i = 0; i < n; i++) { integer g = sym_range(1, (docs - 1) / n, "gap"); at += g; lists[0].id[i] = at; lists[0].impact[i] = i % 2 ? 9 : 3; } lists[0].n = n;
	std::vector<std::string> keys; keys.push_back("k"); save(s, docs, lists, keys); std::unique_ptr<deserialised_jass_v1> r(s.version == 1 ? new deserialised_jass_v1 : new deserialised_jass_v2); r->read_index(""); compare(*r, lists[0], docs, 1); sym_reach("read");
}
// any terms and keys
extern "C" void terms_harness(void) {
	shape s = pick(); size_t n = 1 + sym_choose(sym_arg("n", 2), "terms"), docs = 1 + sym_choose(sym_arg("docs", 3), "documents"), len = sym_arg("len", 2); std::vector<list> lists(n); std::vector<std::string> keys;
	auto word = [&](const char *name, size_t least) { std::string w; size_t l = least + sym_choose(len + 1 - least, "length"); for (size_t i = 0; i < l; i++) { uint8_t c = sym_u8(name); sym_assume(c != 0); w.push_back((char)c); } return w; };
	for (size_t i = 0; i < n; i++) { lists[i].word = word("term", 1); for (size_t j = 0; j < i; j++) if (lists[i].word == lists[j].word) sym_kill(); lists[i].n = 1; lists[i].id[0] = 1 + i % docs; lists[i].impact[0] = 5 + i; }
	for (size_t i = 0; i < docs; i++) keys.push_back(word("key", 0));
	save(s, docs, lists, keys); auto r = load(s, docs, lists, keys); for (auto &l : lists) compare(*r, l, docs, 1);
	std::string other = word("other", 1); for (auto &l : lists) if (l.word == other) sym_kill(); deserialised_jass_v1::metadata m; sym_check(!r->postings_details(m, query_term(sl(other))), "a term that was not written is not found"); sym_reach("read");
}
// long lists and many impacts
extern "C" void long_harness(void) {
	shape s = pick(); static const size_t counts[] = {1, 2, 127, 128, 129, 130, 131, 255, 256, 257, 512}; size_t n = counts[sym_choose(sizeof(counts) / sizeof(*counts), "documents")], kind = sym_choose(3, "impacts"); std::vector<list> lists(1); lists[0].word = "word"; lists[0].n = n; std::vector<std::string> keys;
	for (size_t i = 0; i < n; i++) { lists[0].id[i] = i + 1; lists[0].impact[i] = kind == 0 ? 1 : kind == 1 ? 1 + i % 2 : 1 + i * 7 % 1023; keys.push_back("k"); } save(s, n, lists, keys); auto r = load(s, n, lists, keys); compare(*r, lists[0], n, 1); sym_reach("read");
}
