// C18: every effectiveness measure equals its definition
#include "sym.h"
#include <math.h>
#include <string>
#include <vector>
#include <memory>
#include <limits>
#include <algorithm>
#include "asserts.h"
#include "evaluate.h"
#include "evaluate_precision.h"
#include "evaluate_recall.h"
#include "evaluate_f.h"
#include "evaluate_map.h"
#include "evaluate_mean_reciprocal_rank.h"
#include "evaluate_mean_reciprocal_rank4k.h"
#include "evaluate_expected_search_length.h"
#include "evaluate_rank_biased_precision.h"
#include "evaluate_relevant_returned.h"
#include "evaluate_buying_power.h"
#include "evaluate_buying_power4k.h"
#include "evaluate_buying_power_normalized_discounted_cumulative_gain.h"
#include "evaluate_price_based_normalized_discounted_cumulative_gain.h"
#include "evaluate_cheapest_precision.h"
#include "evaluate_selling_power.h"
using namespace JASS;
static const size_t UNLIMITED = std::numeric_limits<size_t>::max();
static int close_to(double a, double b) { double d = a - b; return both(d < 1e-9, d > -1e-9); }
static const char *NAME[] = {"a", "b", "c", "d"};
struct world {
	size_t docs; int judged[4], relevant[4]; double price[4]; std::shared_ptr<evaluate> assessments, prices; std::vector<std::string> results; size_t listed[4], n, depth; double R;
	bool rel(size_t rank) const { return listed[rank] < docs && relevant[listed[rank]]; }
	double cost(size_t rank) const { return listed[rank] < docs ? price[listed[rank]] : 0; }
	size_t looked() const { return n < depth ? n : depth; }
	// the judgments in any order, those of other queries among them; a ranked list of distinct documents
	world(bool priced, bool shallow) {
		docs = sym_arg("docs", 3); assessments = std::make_shared<evaluate>(); prices = std::make_shared<evaluate>(); R = 0;
		auto &a = assessments->assessments; a.push_back(evaluate::judgement("p", "a", 1)); size_t other = sym_choose(sym_arg("others", 2), "other");
		for (size_t i = 0; i < docs; i++) { size_t k = sym_choose(priced ? 2 : 3, "judgment"); judged[i] = priced || k < 2; relevant[i] = k == 1; if (judged[i]) a.push_back(evaluate::judgement("q", NAME[i], (double)k)); R += relevant[i]; if (other) a.push_back(evaluate::judgement("qq", NAME[i], 1)); }
		if (other) a.push_back(evaluate::judgement("o", "b", 1)); std::sort(a.begin(), a.end());
		static const double cash[] = {1, 2, 4, 8}; for (size_t i = 0; i < docs; i++) { price[i] = priced ? cash[sym_choose(sym_arg("prices", 3), "price")] : 1; prices->assessments.push_back(evaluate::judgement("PRICE", NAME[i], price[i])); }
		n = sym_choose(docs + 1, "results"); bool used[5] = {false};
		for (size_t i = 0; i < n; i++) { size_t d = sym_choose(docs + (priced ? 0 : 1), "result"); sym_assume(!used[d]); used[d] = true; listed[i] = d; results.push_back(d < docs ? NAME[d] : "unjudged"); }
		size_t k = (shallow ? 0 : 1) + sym_choose(docs + 2 - (shallow ? 0 : 1), "depth"); depth = k > docs ? UNLIMITED : k;
	}
};
extern "C" void judged_harness(void) {
	world w(false, false); size_t first = w.n, hits = 0; double ap = 0, rr = 0, rr2 = 0, rbp = 0, p = 1;
	for (size_t i = 0; i < w.looked(); i++) { if (w.rel(i)) { hits++; ap += (double)hits / (double)(i + 1); if (hits == 1) { rr = 1.0 / (double)(i + 1); first = i; } if (hits <= 2) rr2 += 1.0 / (double)(i + 1); rbp += p; } p *= 0.5; }
	double shown = w.depth == UNLIMITED ? (double)w.n : (double)w.depth, precision = w.n ? (double)hits / shown : 0, cap = w.R < (double)w.depth ? w.R : (double)w.depth, recall = w.R ? (double)hits / cap : 1;
	evaluate_precision P(w.assessments); sym_check(close_to(P.compute("q", w.results, w.depth), precision), "precision is relevant returned over returned");
	evaluate_relevant_returned C(w.assessments); sym_check(close_to(C.compute("q", w.results, w.depth), (double)hits), "relevant returned counts the relevant documents returned");
	evaluate_recall Q(w.assessments); double got = Q.compute("q", w.results, w.depth); if (w.R) sym_check(close_to(got, recall), "recall is relevant returned over relevant"); else sym_check(both(got >= 0, got <= 1), "recall is between 0 and 1");
	evaluate_f F(w.assessments); got = F.compute("q", w.results, w.depth); if (w.R) sym_check(close_to(got, precision + recall == 0 ? 0 : 2 * precision * recall / (precision + recall)), "F is the harmonic mean of precision and recall"); else sym_check(both(got >= 0, got <= 1), "F is between 0 and 1");
	evaluate_map M(w.assessments); sym_check(close_to(M.compute("q", w.results, w.depth), w.R ? ap / w.R : 1), "average precision is the mean of the precision at each relevant document");
	evaluate_mean_reciprocal_rank RR(w.assessments); sym_check(close_to(RR.compute("q", w.results, w.depth), rr), "reciprocal rank is that of the first relevant document");
	evaluate_mean_reciprocal_rank4k RK(2, w.assessments); sym_check(close_to(RK.compute("q", w.results, w.depth), hits >= 2 ? rr2 / 2 : 0), "reciprocal rank for k is the mean over the first k relevant documents");
	evaluate_rank_biased_precision B(0.5, w.assessments); sym_check(close_to(B.compute("q", w.results, w.depth), 0.5 * rbp), "rank biased precision discounts geometrically");
	evaluate_expected_search_length E(w.assessments); double esl = E.compute("q", w.results, w.depth); if (hits) sym_check(close_to(esl, (double)first), "search length counts the documents before the first relevant one"); else sym_check(esl >= (double)w.looked(), "search length without a relevant document is at least what was looked at");
	sym_out((uint64_t)hits); sym_out((uint64_t)(ap * 1024)); sym_reach("measured");
}
static size_t sorted_costs(const world &w, double *out) { size_t r = 0; for (size_t i = 0; i < w.docs; i++) if (w.relevant[i]) out[r++] = w.price[i]; std::sort(out, out + r); return r; }
extern "C" void priced_harness(void) {
	world w(true, true); double ideal[4]; size_t R = sorted_costs(w, ideal);
	double spent = 0, bp = 0, bp2 = 0; size_t hits = 0; for (size_t i = 0; i < w.looked(); i++) { spent += w.cost(i); if (w.rel(i)) { hits++; if (hits == 1) bp = ideal[0] / spent; if (hits == 2 && R >= 2) bp2 = (ideal[0] + ideal[1]) / spent; } }
	evaluate_buying_power BP(w.prices, w.assessments); double got = BP.compute("q", w.results, w.depth); sym_check(close_to(got, w.depth == 0 || R == 0 ? 1 : bp), "buying power is the cheapest relevant price over what was spent"); sym_check(both(got >= 0, got <= 1), "buying power is between 0 and 1");
	evaluate_buying_power4k BK(2, w.prices, w.assessments); got = BK.compute("q", w.results, w.depth); sym_check(close_to(got, w.depth == 0 ? 1 : R < 2 ? 0 : bp2), "buying power for k items is the cheapest k prices over what was spent"); sym_check(both(got >= 0, got <= 1), "buying power for k is between 0 and 1");
	double dcg = 0, best = 0; for (size_t i = 0; i < w.looked(); i++) if (w.rel(i)) dcg += ideal[0] / w.cost(i) / log2((double)(i + 2)); for (size_t i = 0; i < R && i < w.depth; i++) best += ideal[0] / ideal[i] / log2((double)(i + 2));
	evaluate_buying_power_normalized_discounted_cumulative_gain N(w.prices, w.assessments); got = N.compute("q", w.results, w.depth); sym_check(close_to(got, w.depth == 0 || R == 0 ? 1 : dcg / best), "buying power gain is discounted by rank and normalised"); sym_check(both(got >= 0, got <= 1 + 1e-9), "buying power gain is between 0 and 1");
	double edge[5]; auto grade = [&](double c) { int below = 0; for (int i = 0; i < 5; i++) below += edge[i] <= c; return 6.0 - below; };
	if (R) for (int i = 0; i < 5; i++) edge[i] = ideal[0] + (ideal[R - 1] - ideal[0]) * ((1 - exp((double)i)) / (1 - exp(5.0)));
	dcg = best = 0; if (R) { for (size_t i = 0; i < w.looked(); i++) if (w.rel(i)) dcg += grade(w.cost(i)) / log2((double)(i + 2)); for (size_t i = 0; i < R && i < w.depth; i++) best += grade(ideal[i]) / log2((double)(i + 2)); }
	evaluate_price_based_normalized_discounted_cumulative_gain G(w.prices, w.assessments); got = G.compute("q", w.results, w.depth); sym_check(close_to(got, w.depth == 0 || R == 0 ? 1 : dcg / best), "price based gain is graded by price band, discounted and normalised"); sym_check(both(got >= 0, got <= 1 + 1e-9), "price based gain is between 0 and 1");
	sym_out((uint64_t)hits); sym_out((uint64_t)(bp * 1024)); sym_reach("measured");
}
extern "C" void cheapest_harness(void) {
	world w(true, true); double ideal[4]; size_t R = sorted_costs(w, ideal); double want;
	if (w.n == 0) want = 0; else if (R == 0 || w.depth == 0) want = 1;
	else { size_t k = w.looked(); if (k > R) k = R; double worst = ideal[k - 1]; size_t good = 0; for (size_t i = 0; i < w.looked(); i++) good += w.rel(i) && w.cost(i) <= worst; want = (double)good / (w.depth == UNLIMITED ? (double)w.n : (double)w.depth); }
	evaluate_cheapest_precision CP(w.prices, w.assessments); double got = CP.compute("q", w.results, w.depth); sym_check(close_to(got, want), "cheapest precision counts the k cheapest relevant documents"); sym_out((uint64_t)(got * 1024)); sym_reach("measured");
}
extern "C" void selling_harness(void) {
	world w(true, true); double ideal[4]; size_t R = sorted_costs(w, ideal), k = R < w.depth ? R : w.depth, hits = 0; double sum = 0; for (size_t i = 0; i < w.n && i < k; i++) if (w.rel(i)) sum += ideal[hits++] / w.cost(i);
	evaluate_selling_power SP(w.prices, w.assessments); double got = SP.compute("q", w.results, w.depth); sym_check(close_to(got, w.depth == 0 || R == 0 ? 1 : sum / (double)k), "selling power is the ideal price over the charged price, averaged"); sym_out((uint64_t)(got * 1024)); sym_check(both(got >= 0, got <= 1), "selling power is between 0 and 1"); sym_reach("measured");
}
// judgments read from text: any spacing, any order
extern "C" void qrels_harness(void) {
	size_t lines = sym_arg("lines", 2); std::string text; int rel[2][2] = {{0}}; int given[2][2] = {{0}};
	for (size_t i = 0; i < lines; i++) { size_t q = sym_choose(2, "query"), d = sym_choose(2, "document"), r = sym_choose(2, "judgment"); sym_assume(!given[q][d]); given[q][d] = 1; rel[q][d] = r; const char *gap = sym_choose(2, "gap") ? "  " : " ";
		text += sym_choose(2, "indent") ? " " : ""; text += q ? "12" : "1"; text += gap; text += "0"; text += gap; text += d ? "doc-2" : "doc"; text += gap; text += r ? "1" : "0"; if (i + 1 < lines || sym_choose(2, "newline")) text += "\n"; }
	evaluate e; e.decode_assessments_trec_qrels(text); sym_check(e.assessments.size() == lines, "one judgment per line"); size_t queries = 0;
	for (size_t q = 0; q < 2; q++) { size_t count = 0; for (size_t d = 0; d < 2; d++) { const auto &j = e.find(q ? "12" : "1", d ? "doc-2" : "doc"); sym_check(j.score == (double)rel[q][d], "a judgment reads back as written"); count += rel[q][d]; } sym_check(e.relevance_count(q ? "12" : "1") == count, "relevant documents are counted per query"); queries += given[q][0] | given[q][1]; }
	sym_check(e.query_count() == queries, "queries are counted"); sym_out(queries); sym_reach("read");
}
