// C19: ranking scores follow BM25; quantization keeps their order and uses the whole impact range
#include "sym.h"
#include <string.h>
#include <math.h>
#include <string>
#include <vector>
#include <memory>
#include "asserts.h"
#include "index_postings.h"
#include "index_postings_impact.h"
#include "index_manager_sequential.h"
#include "ranking_function_none.h"
#include "ranking_function_atire_bm25.h"
#include "quantize.h"
#include "quantize_none.h"
using namespace JASS;
typedef index_postings_impact::impact_type impact_t;
static const size_t LOW = index_postings_impact::smallest_impact, HIGH = index_postings_impact::largest_impact;
struct gather : index_manager::delegate {
	size_t terms = 0, keys = 0; uint32_t df[8]; char name[8]; uint32_t id[8][8]; impact_t tf[8][8];
	gather(size_t d) : index_manager::delegate(d) {}
	void operator()(const slice &w, const index_postings &, compress_integer::integer n, compress_integer::integer *ids, impact_t *f) override { if (terms < 8) { df[terms] = n; name[terms] = w.size() ? w[0] : 0; for (size_t i = 0; i < n && i < 8; i++) { id[terms][i] = ids[i]; tf[terms][i] = f[i]; } } terms++; }
	void operator()(size_t, const slice &) override { keys++; }
	void finish(void) override {}
};
// any scores: a ranking function that reads them from a table
struct table_ranker { double score[8]; size_t at = 0; void compute_idf_component(compress_integer::integer, compress_integer::integer) {} void compute_tf_component(impact_t) {} double compute_score(compress_integer::integer id, impact_t) { return score[id]; } };
static int monotone(size_t n, const double *score, const impact_t *impact) { int ok = 1; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (score[i] > score[j]) ok &= impact[i] >= impact[j]; return ok; }
static void verify(size_t n, const double *score, const impact_t *impact) {
	double lo = score[0], hi = score[0]; for (size_t i = 1; i < n; i++) { if (score[i] < lo) lo = score[i]; if (score[i] > hi) hi = score[i]; }
	int legal = 1, low = 1, high = 1, equal = 1, even = 1;
	for (size_t i = 0; i < n; i++) { legal &= both(impact[i] >= LOW, impact[i] <= HIGH); if (lo < hi) { if (score[i] == lo) low &= impact[i] == LOW; if (score[i] == hi) high &= impact[i] == HIGH; double exact = (score[i] - lo) / (hi - lo) * (double)(HIGH - LOW) + (double)LOW, off = (double)impact[i] - exact; even &= both(off < 1.001, off > -1.001); } for (size_t j = 0; j < n; j++) if (score[i] == score[j]) equal &= impact[i] == impact[j]; }
	sym_check(legal, "every impact is in the legal range"); sym_check(monotone(n, score, impact), "a higher score never gets a lower impact"); sym_check(low, "the lowest score gets the lowest impact"); sym_check(high, "the highest score gets the highest impact"); sym_check(equal, "equal scores get equal impacts"); sym_check(even, "impacts are evenly spread");
}
extern "C" void scores_harness(void) {
	size_t n = 1 + sym_choose(sym_arg("n", 3), "n"), split = sym_choose(2, "two lists"); static const double value[] = {0, 1e-9, 0.1, 1.0 / 3, 2.5, 7, 1e9, 3.3333333333333335}; auto ranker = std::make_shared<table_ranker>(); double score[8];
	for (size_t i = 0; i < n; i++) score[i] = ranker->score[i + 1] = value[sym_choose(sym_arg("values", 6), "score")];
	quantize<table_ranker> q(n, ranker); gather g(n); allocator_pool pool(4096); index_postings p(pool); uint32_t ids[8]; impact_t tf[8]; for (size_t i = 0; i < n; i++) { ids[i] = i + 1; tf[i] = 1; }
	size_t first = split ? n / 2 : n; if (first) q(slice("x"), p, first, ids, tf); if (first < n) q(slice("y"), p, n - first, ids + first, tf + first);
	double lo, hi; q.get_bounds(lo, hi); for (size_t i = 0; i < n; i++) sym_check(both(score[i] >= lo, either(score[i] <= hi, hi < 1e-300)), "the bounds hold every score");
	if (first) q(g, slice("x"), p, first, ids, tf); if (first < n) q(g, slice("y"), p, n - first, ids + first, tf + first);
	sym_check(g.terms == (first && first < n ? 2 : 1), "each list is passed on"); verify(n, score, tf); for (size_t i = 0; i < n; i++) sym_out(tf[i]); sym_reach("quantized");
}
// the whole path: documents are indexed, ranked by BM25 and quantized
static double bm25(double k1, double b, size_t docs, size_t df, double tf, double len, double mean) { return log((double)docs / (double)df) * ((k1 + 1) * tf) / (tf + k1 * (1 - b + b * len / mean)); }
static void collection(bool none) {
	size_t docs = 1 + sym_choose(sym_arg("docs", 3), "documents"); index_manager_sequential &m = *new index_manager_sequential; size_t tf[2][4] = {{0}}, len[4], sum = 0, df[2] = {0}; static const size_t counts[] = {0, 1, 2, 600, 2000}; size_t kinds = sym_arg("counts", 4);
	for (size_t d = 0; d < docs; d++) { char key[] = "doc"; m.begin_document(slice(key)); len[d] = 0; for (size_t w = 0; w < 2; w++) { tf[w][d] = counts[sym_choose(kinds, "frequency")]; if (tf[w][d]) { parser::token k; char buf[2] = {(char)('x' + w), 0}; k.set(slice(buf)); k.count = tf[w][d]; m.term(k); df[w]++; if (tf[w][d] > HIGH) tf[w][d] = HIGH; } len[d] += tf[w][d]; } len[d] += 1; sum += len[d]; m.end_document(len[d]); }
	auto ranker = std::make_shared<ranking_function_atire_bm25>(0.9, 0.4, m.get_document_length_vector()); double score[8]; impact_t impact[8]; size_t n = 0; int right = 1; double mean = (double)sum / (double)docs;
	gather g(docs); quantize<ranking_function_atire_bm25> *q = none ? new quantize_none<ranking_function_atire_bm25>(docs, ranker) : new quantize<ranking_function_atire_bm25>(docs, ranker);
	m.iterate(*q); m.iterate(*q, g); sym_check(g.terms == (size_t)((df[0] != 0) + (df[1] != 0)), "every term is passed on"); sym_check(g.keys == docs + 1, "every primary key is passed on");
	for (size_t t = 0; t < g.terms && t < 2; t++) { size_t w = g.name[t] - 'x'; sym_check(w < 2 && df[w] == g.df[t], "document frequency"); ranker->compute_idf_component(df[w], docs); for (size_t i = 0; i < df[w]; i++) { size_t d = g.id[t][i] - 1; sym_check(d < docs && tf[w][d], "a posting for each document"); ranker->compute_tf_component(tf[w][d]); score[n] = ranker->compute_score(d + 1, tf[w][d]); double want = bm25(0.9, 0.4, docs, df[w], (double)tf[w][d], (double)len[d], mean), off = score[n] - want; right &= both(off <= 1e-5 * want + 1e-12, -off <= 1e-5 * want + 1e-12); impact[n] = g.tf[t][i]; if (none) sym_check(impact[n] == tf[w][d], "without quantization frequencies pass through"); n++; } }
	sym_check(right, "scores follow BM25"); if (n && !none) verify(n, score, impact); for (size_t i = 0; i < n; i++) sym_out(impact[i]); sym_reach("quantized");
}
extern "C" void collection_harness(void) { collection(false); }
extern "C" void none_harness(void) { collection(true); }
