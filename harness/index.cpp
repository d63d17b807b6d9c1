// C07: the inverted index holds exactly the postings added to it; C08: impact ordering loses nothing and is in order
#include "sym.h"
#include <vector>
#include <string.h>
#include "index_postings.h"
#include "index_postings_impact.h"
#include "index_manager_sequential.h"
#include "ranking_function_none.h"
using namespace JASS;
static const size_t CAP = index_postings_impact::largest_impact;
struct truth { size_t n = 0; uint32_t id[16]; uint64_t tf[16]; void add(uint32_t d, uint64_t a) { if (n && id[n - 1] == d) tf[n - 1] += a; else { id[n] = d; tf[n] = a; n++; } } uint32_t freq(size_t i) const { return tf[i] > CAP ? CAP : tf[i]; } };
static uint32_t gap(unsigned mode) { switch (mode) { case 0: return sym_range(1, 100, "gap"); case 1: return sym_range(120, 140, "gap"); case 2: return 1 + sym_choose(3, "gap"); default: return sym_range(1, (1u << 28) + 5, "gap"); } }
// every history of additions: a new document (any gap) or another occurrence in the same one, any amount
extern "C" void postings_harness(void) {
	allocator_pool pool(4096); index_postings p(pool); truth t; size_t n = sym_arg("n", 3); uint32_t at = 0;
	for (size_t i = 0; i < n; i++) { if (i == 0 || sym_choose(2, "new document")) at += gap(3); uint16_t a = sym_range(1, 65535, "amount"); p.push_back(at, a); t.add(at, a); }
	size_t cap = t.n + 1 - sym_choose(3, "room"), tmp = 5 * n; if (cap > t.n + 1) sym_kill(); uint32_t *ids = new uint32_t[cap]; index_postings_impact::impact_type *tf = new index_postings_impact::impact_type[cap]; uint8_t *temp = new uint8_t[tmp];
	size_t got = p.linearize(temp, tmp, ids, tf, cap);
	if (cap < t.n) { sym_check(got == 0, "linearize refuses when there is no room"); sym_reach("refused"); return; }
	sym_check(got == t.n, "one posting for each document"); int ok = 1, ft = 1; for (size_t i = 0; i < t.n; i++) { ok &= ids[i] == t.id[i]; ft &= tf[i] == t.freq(i); sym_out(ids[i]); sym_out(tf[i]); }
	sym_check(ok, "document ids come back in order"); sym_check(ft, "term frequencies are the sums, capped at the largest impact"); sym_reach("linearized");
}
// a collection of D documents needs at most D bytes of scratch space for any postings list (this is what every caller allocates)
extern "C" void space_harness(void) {
	allocator_pool pool(4096); index_postings p(pool); truth t; size_t n = sym_arg("n", 4); uint32_t at = 0;
	for (size_t i = 0; i < n; i++) { at += gap(sym_choose(2, "size")); p.push_back(at, 1); t.add(at, 1); }
	size_t docs = at; docs = sym_concretize(docs > 400 ? 400 : docs); if (at > docs) sym_kill();
	uint32_t *ids = new uint32_t[docs]; index_postings_impact::impact_type *tf = new index_postings_impact::impact_type[docs]; uint8_t *temp = new uint8_t[docs];
	size_t got = p.linearize(temp, docs, ids, tf, docs); sym_check(got == t.n, "the scratch space every caller allocates is enough"); int ok = 1; for (size_t i = 0; i < t.n; i++) ok &= ids[i] == t.id[i]; sym_check(ok, "document ids come back in order"); sym_reach("space");
}
extern "C" void vector_harness(void) {
	allocator_pool pool(4096); index_postings p(pool); size_t n = 1 + sym_choose(sym_arg("n", 3), "n"); std::vector<posting> v; uint32_t at = 0; uint32_t id[8]; uint32_t f[8];
	for (size_t i = 0; i < n; i++) { uint32_t g = gap(3), a = sym_u32("tf"); posting x; x.docid = g; x.term_frequency = a; v.push_back(x); at += g; id[i] = at; f[i] = a > CAP ? CAP : a; }
	p.push_back(v); uint32_t *ids = new uint32_t[n]; index_postings_impact::impact_type *tf = new index_postings_impact::impact_type[n]; uint8_t *temp = new uint8_t[5 * n]; size_t got = p.linearize(temp, 5 * n, ids, tf, n);
	sym_check(got == n, "one posting for each document"); int ok = 1, ft = 1; for (size_t i = 0; i < n; i++) { ok &= ids[i] == id[i]; ft &= tf[i] == (decltype(posting::term_frequency))f[i]; } sym_check(ok, "document ids come back in order"); sym_check(ft, "term frequencies come back, capped"); sym_reach("linearized");
}
// documents made of terms, through the index manager
struct collect : index_manager::delegate {
	size_t docs, terms = 0, keys = 0; slice term[8]; truth t[8]; size_t kid[8]; slice key[8];
	collect(size_t d) : index_manager::delegate(d), docs(d) {}
	void operator()(const slice &w, const index_postings &, compress_integer::integer df, compress_integer::integer *ids, index_postings_impact::impact_type *tf) override { if (terms < 8) { term[terms] = w; for (size_t i = 0; i < df && i < 16; i++) { t[terms].id[i] = ids[i]; t[terms].tf[i] = tf[i]; } t[terms].n = df; } terms++; }
	void operator()(size_t id, const slice &k) override { if (keys < 8) { kid[keys] = id; key[keys] = k; } keys++; }
	void finish(void) override {}
};
static int same(const slice &a, const char *b) { return a.size() == strlen(b) && memcmp(a.address(), b, a.size()) == 0; }
extern "C" void manager_harness(void) {
	static const char *word[] = {"a", "b", "ab", "ba"}; static const char *name[] = {"d0", "d1", "d2", "d3"}; size_t words = sym_arg("words", 3), docs = 1 + sym_choose(sym_arg("docs", 3), "documents"), per = sym_arg("per", 2); truth want[4]; size_t lens[8];
	index_manager_sequential &m = *new index_manager_sequential;
	for (size_t d = 0; d < docs; d++) {
		char key[8]; strcpy(key, name[d]); m.begin_document(slice(key)); size_t n = sym_choose(per + 1, "terms"); lens[d] = 0;
		for (size_t i = 0; i < n; i++) { size_t w = sym_choose(words, "term"); parser::token k; char buf[8]; strcpy(buf, word[w]); k.set(slice(buf)); k.count = sym_range(1, 600, "count"); m.term(k); want[w].add(d + 1, k.count); lens[d] += 1; buf[0] = '#'; }
		m.end_document(lens[d]); key[0] = '#';
	}
	sym_check(m.get_highest_document_id() == docs, "documents are counted"); auto &lv = m.get_document_length_vector(); sym_check(lv.size() == docs + 1, "a length for each document"); for (size_t d = 0; d < docs; d++) sym_check(lv[d + 1] == lens[d], "lengths are kept");
	collect c(docs); m.iterate(c); size_t distinct = 0; for (size_t w = 0; w < words; w++) distinct += want[w].n != 0;
	sym_check(c.terms == distinct, "every term is visited once");
	for (size_t w = 0; w < words; w++) if (want[w].n) { size_t hit = 8; for (size_t i = 0; i < c.terms && i < 8; i++) if (same(c.term[i], word[w])) hit = i; sym_check(hit != 8, "every term is found under its own name"); truth &g = c.t[hit]; sym_check(g.n == want[w].n, "document frequency"); int ok = 1; for (size_t i = 0; i < g.n; i++) ok &= both(g.id[i] == want[w].id[i], g.tf[i] == want[w].freq(i)); sym_check(ok, "postings are the documents and counts added"); }
	sym_check(c.keys == docs + 1, "a primary key for each document, after the placeholder"); sym_check(c.kid[0] == 0 && same(c.key[0], "-"), "document ids start at 1"); for (size_t d = 0; d < docs; d++) sym_check(c.kid[d + 1] == d + 1 && same(c.key[d + 1], name[d]), "primary keys in order"); sym_reach("indexed");
}
// C08: a list of n postings, impact ordered
static uint32_t amount(unsigned mode) { switch (mode) { case 0: return sym_range(1, 4, "tf"); case 1: return sym_range(1022, 1026, "tf"); case 2: { static const uint32_t v[] = {1, 2, 255, 256, 1023, 1024, 1025, 65535}; return v[sym_choose(8, "tf")]; } default: return sym_range(1, 40, "tf"); } }
extern "C" void impact_harness(void) {
	allocator_pool pool(65536); index_postings p(pool); truth t; size_t n = 1 + sym_choose(sym_arg("n", 3), "n"), mode = sym_choose(sym_arg("modes", 3), "mode"), docs = n * 3; uint32_t at = 0;
	for (size_t i = 0; i < n; i++) { at += gap(2); uint32_t a = amount(mode); p.push_back(at, a); t.add(at, a); }
	index_postings_impact o(docs, pool); p.impact_order(docs, o); size_t segs = o.impact_size(), total = 0, prev = 0, nth = 0, seen[16] = {0}; sym_check(segs >= 1 && segs <= n, "as many segments as distinct impacts");
	for (const auto &s : o) { if (++nth > n) break; sym_check(both(s.impact_score > prev, s.impact_score <= CAP), "segments by increasing impact"); prev = s.impact_score; size_t len = s.size(); sym_check(len >= 1 && total + len <= n, "no segment is empty and together they hold the list"); uint32_t last = 0; for (auto d : s) { sym_check(d > last, "documents increase within a segment"); last = d; int hit = 0; for (size_t i = 0; i < t.n; i++) { int h = both(t.id[i] == d, t.freq(i) == s.impact_score); hit |= h; seen[i] += h; } sym_check(hit, "each posting is in the segment of its own impact"); } total += len; }
	sym_check(nth == segs, "iteration visits every segment"); sym_check(total == n, "no posting is lost"); int ok = 1; for (size_t i = 0; i < n; i++) ok &= seen[i] == 1; sym_check(ok, "each posting appears exactly once");
	size_t back = 0; uint32_t high = 0xFFFFFFFF; for (auto it = o.rbegin(), e = o.rend(); it != e; ++it) { auto &s = *it; sym_check(s.impact_score < high, "reverse iteration is by decreasing impact"); high = s.impact_score; if (++back > n) break; } sym_check(back == segs, "reverse iteration visits every segment"); sym_out(segs); sym_out(prev); sym_reach("ordered");
}
// one impact object is used for list after list (as the serialisers do): nothing is left over from the previous one
extern "C" void reuse_harness(void) {
	allocator_pool pool(65536); size_t docs = 12; index_postings_impact o(docs, pool);
	for (int round = 0; round < 2; round++) {
		index_postings p(pool); truth t; size_t n = 1 + sym_choose(sym_arg("n", 2), "n"); uint32_t at = 0; for (size_t i = 0; i < n; i++) { at += gap(2); uint32_t a = amount(0); p.push_back(at, a); t.add(at, a); } p.impact_order(docs, o);
		size_t total = 0; for (const auto &s : o) { for (auto d : s) { int hit = 0; for (size_t i = 0; i < t.n; i++) hit |= both(t.id[i] == d, t.freq(i) == s.impact_score); sym_check(hit, "each posting is in the segment of its own impact"); total++; } } sym_check(total == n, "no posting is lost");
	}
	sym_reach("ordered");
}
