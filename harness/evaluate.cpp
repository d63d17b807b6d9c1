// C06: the query processors keep exactly the k best documents with their exact scores
#include "sym.h"
#include <vector>
#include <string>
#include "compress_integer_none.h"
#include "query_heap.h"
#include "query_heap_clean.h"
#include "query_maxblock.h"
#include "query_maxblock_heap.h"
using namespace JASS;
static const size_t MAXD = 8;
struct result { size_t n; size_t doc[16]; unsigned rsv[16]; };
static void keys_of(std::vector<std::string> &keys, size_t d) { for (size_t i = 0; i < d; i++) keys.push_back(std::string(1, (char)('a' + i))); }
template <typename Q> static void forwards(Q &q, result &r) { r.n = 0; for (const auto d : q) { if (r.n == 16) { r.n++; break; } r.doc[r.n] = d.document_id; r.rsv[r.n] = d.rsv; sym_check(d.document_id < MAXD && d.primary_key.size() == 1 && d.primary_key[0] == (char)('a' + d.document_id), "a result carries the primary key of its document"); r.n++; } }
template <typename Q> static void backwards(Q &q, result &r) { r.n = 0; auto it = q.rbegin(); auto end = q.rend(); for (; it != end; ++it) { auto d = *it; if (r.n == 16) { r.n++; break; } r.doc[r.n] = d.document_id; r.rsv[r.n] = d.rsv; r.n++; } }
// the reported list against the scores: sound (own score, no repeats), the right number, the k best, in order
static void verify(const result &r, const unsigned *score, size_t docs, size_t k, int order) {
	size_t hits = 0; for (size_t d = 0; d < docs; d++) hits += score[d] != 0;
	size_t want = hits < k ? hits : k;
	sym_check(r.n == want, "as many results as documents found, up to k");
	int own = 1, once = 1, best = 1, ord = 1;
	for (size_t i = 0; i < r.n && i < 16; i++) {
		unsigned s = 0; for (size_t d = 0; d < docs; d++) s |= r.doc[i] == d ? score[d] : 0;
		own &= both(r.doc[i] < docs, both(s == r.rsv[i], s != 0));
		for (size_t j = 0; j < i; j++) once &= r.doc[i] != r.doc[j];
		for (size_t d = 0; d < docs; d++) { int in = 0; for (size_t j = 0; j < r.n && j < 16; j++) in |= r.doc[j] == d; best &= either(in, score[d] <= r.rsv[i]); }
		if (i && order > 0) ord &= r.rsv[i - 1] <= r.rsv[i]; if (i && order < 0) ord &= r.rsv[i - 1] >= r.rsv[i];
	}
	sym_check(own, "every result carries the document's own total"); sym_check(once, "no document is reported twice"); sym_check(best, "no better document is left out"); sym_check(ord, "results are in rank order");
}
template <typename Q> static void history(Q &q, int order, bool reversed, bool dirty) {
	size_t docs = sym_arg("docs", 4), k = 1 + sym_choose(sym_arg("k", 2), "k"), n = sym_arg("n", 4), width = 1 + sym_choose(sym_arg("widths", 1), "width"); std::vector<std::string> keys; keys_of(keys, docs);
	q.init(keys, docs, k, width); q.rewind(0, 1, 255);
	if (dirty) { for (size_t d = 0; d < docs; d++) q.add_rsv(d, 7 + 3 * (d & 1)); result r; forwards(q, r); q.rewind(0, 1, 255); }
	unsigned score[MAXD] = {0};
	for (size_t i = 0; i < n; i++) { size_t d = sym_choose(docs, "doc"); unsigned s = sym_range(1, 63, "impact"); score[d] += s; q.add_rsv(d, s); }
	result r; if (reversed) backwards(q, r); else forwards(q, r);
	verify(r, score, docs, k, order);
	for (size_t i = 0; i < r.n && i < 4; i++) { sym_out(r.doc[i]); sym_out(r.rsv[i]); } sym_reach("ranked");
}
extern "C" void clean_harness(void) { history(*new query_heap_clean, -1, true, true); }
extern "C" void clean_forward_harness(void) { history(*new query_heap_clean, 0, false, false); }
extern "C" void heap_harness(void) { history(*new query_heap, -1, true, true); }
extern "C" void maxblock_heap_harness(void) { history(*new query_maxblock_heap, -1, true, true); }
extern "C" void maxblock_harness(void) { history(*new query_maxblock, 0, false, true); }
// the shipped path: impact-ordered d1 segments decoded through a codec and fed to the heap
extern "C" void segments_harness(void) {
	compress_integer_none &q = *new compress_integer_none; size_t docs = sym_arg("docs", 8), k = 1 + sym_choose(sym_arg("k", 2), "k"), segs = sym_arg("segs", 3); std::vector<std::string> keys; keys_of(keys, docs);
	q.init(keys, docs, k, 2); q.rewind(); unsigned score[MAXD] = {0}; uint32_t *buf = new uint32_t[MAXD];
	for (size_t s = 0; s < segs; s++) {
		unsigned impact = sym_range(1, 63, "impact"); size_t set = 1 + sym_choose((1u << docs) - 1, "documents"), n = 0, last = 0;
		for (size_t d = 0; d < docs; d++) if (set >> d & 1) { buf[n++] = d - last; last = d; score[d] += impact; }
		q.decode_and_process(impact, n, buf, n * sizeof(*buf));
	}
	result r; backwards(q, r); verify(r, score, docs, k, -1); for (size_t i = 0; i < r.n && i < 4; i++) { sym_out(r.doc[i]); sym_out(r.rsv[i]); } sym_reach("ranked");
}
// a lower bound on the k-th score: processing may stop early, but nothing below the bound is reported, totals are sound; with top_up the answer is exact when nothing stopped early
extern "C" void bound_harness(void) {
	query_heap_clean &q = *new query_heap_clean; size_t docs = sym_arg("docs", 4), k = 1 + sym_choose(sym_arg("k", 2), "k"), n = sym_arg("n", 4); std::vector<std::string> keys; keys_of(keys, docs);
	q.init(keys, docs, k, 1); unsigned bound = sym_range(2, 127, "bound"); q.rewind(1, bound, 255); unsigned score[MAXD] = {0}; bool stopped = false;
	for (size_t i = 0; i < n && !stopped; i++) { size_t d = sym_choose(docs, "doc"); unsigned s = sym_range(1, 63, "impact"); score[d] += s; try { q.add_rsv(d, s); } catch (Done &) { stopped = true; } }
	size_t above = 0; for (size_t d = 0; d < docs; d++) above += score[d] >= bound;
	sym_check(stopped == (above >= k), "processing stops exactly when k documents have reached the bound");
	if (!stopped) { q.top_up(); sym_reach("topped up"); } else sym_reach("stopped");
	result r; backwards(q, r); verify(r, score, docs, k, -1); for (size_t i = 0; i < r.n && i < 4; i++) { sym_out(r.doc[i]); sym_out(r.rsv[i]); }
}
