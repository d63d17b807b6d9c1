// C10: anytime search over an index on disk
#include "store.h"
#include "JASS_anytime_api.h"
static const char *const KEY[] = {"D-one", "two", "3", "four"}; static const char *const WORD[] = {"a", "b", "c"};
struct world { size_t docs, terms; impact_t impact[3][4]; shape s; };
static void store(world &w) {
	std::vector<list> lists; for (size_t t = 0; t < w.terms; t++) { list l; l.word = WORD[t]; for (size_t d = 0; d < w.docs; d++) if (w.impact[t][d]) { l.id[l.n] = d + 1; l.impact[l.n++] = w.impact[t][d]; } if (l.n) lists.push_back(l); }
	std::vector<std::string> keys; for (size_t d = 0; d < w.docs; d++) keys.push_back(KEY[d]); save(w.s, w.docs, lists, keys);
}
static world collection(size_t docs, size_t terms, size_t kinds) {
	static const impact_t values[] = {0, 1, 3, 1023, 2}; world w; w.docs = docs; w.terms = terms; w.s.version = 1 + sym_choose(sym_arg("versions", 2), "version"); w.s.codec = sym_arg("codec", 1); w.s.alignment = 1; size_t any = 0; for (size_t t = 0; t < terms; t++) for (size_t d = 0; d < docs; d++) { w.impact[t][d] = values[sym_choose(kinds, "impact")]; any += w.impact[t][d] != 0; }
	if (!any) { sym_kill(); } return w;
}
static bool eat(const std::string &s, size_t &at, const char *t) { size_t n = strlen(t); if (s.compare(at, n, t) != 0) return false; at += n; return true; }
static size_t number(const std::string &s, size_t &at) { size_t v = 0; while (at < s.size() && s[at] >= '0' && s[at] <= '9') v = v * 10 + (size_t)(s[at++] - '0'); return v; }
struct hit { size_t doc, score; };
// the results list, one line per document: id Q0 key rank score JASSv2(ID:docid->score)
static std::vector<hit> read(const JASS_anytime_result &r, const char *id, size_t docs) {
	std::vector<hit> out; size_t at = 0; const std::string &s = r.results_list;
	while (at < s.size()) {
		bool ok = eat(s, at, id) && eat(s, at, " Q0 "); size_t d = 0; for (; d < docs; d++) { size_t k = at; if (eat(s, k, KEY[d]) && k < s.size() && s[k] == ' ') { at = k + 1; break; } } ok = ok && d < docs; size_t rank = number(s, at); ok = ok && eat(s, at, " "); size_t score = number(s, at); ok = ok && eat(s, at, " JASSv2"); while (at < s.size() && s[at] != '\n') at++; ok = ok && at < s.size(); at++;
		sym_check(ok, "each line of results is in TREC format and names a document"); if (!ok) break; out.push_back({d, score}); sym_check(rank == out.size(), "ranks count from 1");
	}
	return out;
}
static void check(const std::vector<hit> &got, const size_t *score, size_t docs, size_t k) {
	bool in[8] = {false}; size_t matching = 0, least = ~(size_t)0; for (size_t d = 0; d < docs; d++) matching += score[d] != 0;
	sym_check(got.size() == (matching < k ? matching : k), "the top k documents are returned, or all that match");
	for (size_t i = 0; i < got.size(); i++) { sym_out(got[i].doc); sym_out(got[i].score); sym_check(!in[got[i].doc], "no document is returned twice"); in[got[i].doc] = true; sym_check(got[i].score == score[got[i].doc], "the score is the sum of the impacts of the query's terms"); if (i) sym_check(got[i].score <= got[i - 1].score, "results go from high score to low"); if (got[i].score < least) least = got[i].score; }
	for (size_t d = 0; d < docs; d++) if (!in[d] && got.size()) sym_check(score[d] <= least, "no better document is left out");
}
struct segment { size_t impact, n, term; };
// what is processed within a budget: highest impact first, shortest first among equals; false when equals make it ambiguous
static bool budgeted(const world &w, const size_t *times, size_t budget, size_t *score, size_t &processed) {
	std::vector<segment> seg; for (size_t t = 0; t < w.terms; t++) if (times[t]) for (size_t d = 0; d < w.docs; d++) if (w.impact[t][d]) { bool seen = false; for (auto &s : seg) if (s.term == t && s.impact == w.impact[t][d] * times[t]) { s.n++; seen = true; } if (!seen) seg.push_back({w.impact[t][d] * times[t], 1, t}); }
	for (size_t i = 0; i < seg.size(); i++) for (size_t j = i + 1; j < seg.size(); j++) if (seg[j].impact > seg[i].impact || (seg[j].impact == seg[i].impact && seg[j].n < seg[i].n)) std::swap(seg[i], seg[j]);
	processed = 0; for (size_t d = 0; d < w.docs; d++) score[d] = 0; size_t i = 0;
	for (; i < seg.size() && processed + seg[i].n <= budget; i++) { processed += seg[i].n; for (size_t d = 0; d < w.docs; d++) if (w.impact[seg[i].term][d] * times[seg[i].term] == seg[i].impact) score[d] += seg[i].impact; }
	return !(i > 0 && i < seg.size() && seg[i].impact == seg[i - 1].impact && seg[i].n == seg[i - 1].n);
}
static const struct { const char *text, *id; size_t times[3]; } QUERY[] = {{"7:a b", "7", {1, 1, 0}}, {"8 b", "8", {0, 1, 0}}, {"q\ta a b", "q", {2, 1, 0}}, {"a", "", {1, 0, 0}}, {"9 a nothing", "9", {1, 0, 0}}, {"10 zzz", "10", {0, 0, 0}}, {"11: \tb c a", "11", {1, 1, 1}}, {"12 ", "12", {0, 0, 0}}, {"", "", {0, 0, 0}}};
extern "C" void sym_tables(void);
static JASS_anytime_api &engine(const world &w, size_t k, size_t width = 0) { sym_tables(); JASS_anytime_api &api = *new JASS_anytime_api; sym_check(api.set_top_k(k) == JASS_ERROR_OK, "top-k accepted"); if (width) api.set_accumulator_width(width); sym_check(api.load_index(w.s.version, "") == JASS_ERROR_OK, "the index loads"); sym_check(api.get_document_count() == w.docs, "document count"); return api; }
extern "C" void search_harness(void) {
	world w = collection(sym_arg("docs", 3), sym_arg("terms", 2), sym_arg("impacts", 3)); size_t k = 1 + sym_choose(sym_arg("k", 2), "k"); auto &q = QUERY[sym_arg("query", 0) + sym_choose(sym_arg("queries", 3), "query")]; store(w); JASS_anytime_api &api = engine(w, k); if (sym_choose(sym_arg("parsers", 1), "parser")) api.use_ascii_parser();
	JASS_anytime_result r = api.search(q.text); size_t score[4], processed; budgeted(w, q.times, ~(size_t)0, score, processed); sym_check(r.query_id == q.id, "the query id"); sym_check(r.postings_processed == processed, "every posting is processed"); check(read(r, q.id, w.docs), score, w.docs, k); sym_reach("searched");
}
extern "C" void budget_harness(void) {
	world w = collection(sym_arg("docs", 3), sym_arg("terms", 2), sym_arg("impacts", 3)); size_t k = sym_arg("k", 2), budget = sym_choose(w.docs * w.terms + 2, "budget"), how = sym_choose(3, "kind of budget"); auto &q = QUERY[2 * sym_choose(2, "query")]; store(w); JASS_anytime_api &api = engine(w, k); size_t total = 0; for (size_t t = 0; t < w.terms; t++) if (q.times[t]) for (size_t d = 0; d < w.docs; d++) total += w.impact[t][d] != 0; size_t limit = budget;
	if (how == 0) api.set_postings_to_process(budget); else if (how == 1) { if (budget > 4) sym_kill(); api.set_postings_to_process_proportion((double)budget * 50); limit = w.docs * budget / 2; } else { if (budget > 2) sym_kill(); api.set_postings_to_process_relative((double)budget * 50); limit = total * budget / 2; }
	JASS_anytime_result r = api.search(q.text); size_t score[4], processed; bool sure = budgeted(w, q.times, limit, score, processed); sym_check(r.postings_processed <= limit, "never more postings than the budget"); sym_check(r.postings_processed == processed, "as many postings as fit, highest impact first"); auto hits = read(r, q.id, w.docs); if (sure) check(hits, score, w.docs, k);
	if (how == 2) { api.set_postings_to_process_relative(100); r = api.search(q.text); budgeted(w, q.times, ~(size_t)0, score, processed); sym_check(r.postings_processed == processed, "a budget relative to one query does not outlive it"); check(read(r, q.id, w.docs), score, w.docs, k); } sym_reach("searched");
}
// several queries, one after another: no query affects the next
extern "C" void batch_harness(void) {
	world w = collection(sym_arg("docs", 2), 2, sym_arg("impacts", 3)); size_t k = 1 + sym_choose(2, "k"), n = sym_arg("n", 2), which[4]; std::vector<std::string> list; store(w); for (size_t i = 0; i < n; i++) { which[i] = sym_choose(sizeof(QUERY) / sizeof(*QUERY), "query"); for (size_t j = 0; j < i; j++) if (!strcmp(QUERY[which[i]].id, QUERY[which[j]].id)) sym_kill(); list.push_back(QUERY[which[i]].text); }
	JASS_anytime_api &api = engine(w, k); auto out = api.threaded_search(list, 1); size_t answers = 0; sym_check(out.size() == 1, "one thread");
	for (auto &t : out) for (auto &r : t.results) { answers++; for (size_t i = 0; i < n; i++) if (r.first == QUERY[which[i]].id) { size_t score[4], processed; budgeted(w, QUERY[which[i]].times, ~(size_t)0, score, processed); check(read(r.second, QUERY[which[i]].id, w.docs), score, w.docs, k); } }
	sym_check(answers == n, "every query is answered"); sym_reach("searched");
}
// C11: threads sharing an engine and a list of queries
extern "C" void shared_harness(void) {
	world w; w.docs = 2; w.terms = 2; w.s = {1, 1, 1}; w.impact[0][0] = 3; w.impact[0][1] = 1; w.impact[1][0] = 0; w.impact[1][1] = 5; store(w); JASS_anytime_api &api = engine(w, 2); size_t n = sym_arg("n", 2), how = sym_choose(2, "budget"); std::vector<std::string> list; for (size_t i = 0; i < n; i++) list.push_back(QUERY[i].text); if (how) api.set_postings_to_process_relative(50); if (sym_choose(2, "minimum scores")) { FILE *fp = fopen("rsv", "wb"); fputs("7 1\n", fp); fclose(fp); sym_check(api.load_oracle_scores("rsv") == JASS_ERROR_OK, "minimum scores load"); }
	auto out = api.threaded_search(list, sym_arg("threads", 2)); size_t answers = 0; sym_check(out.size() == sym_arg("threads", 2), "a result from each thread");
	for (auto &t : out) for (auto &r : t.results) { answers++; for (size_t i = 0; i < n; i++) if (r.first == QUERY[i].id) { size_t total = 0, score[4], processed; for (size_t x = 0; x < 2; x++) for (size_t d = 0; d < 2; d++) total += QUERY[i].times[x] && w.impact[x][d]; bool sure = budgeted(w, QUERY[i].times, how ? total / 2 : ~(size_t)0, score, processed); sym_check(r.second.postings_processed == processed, "each query keeps to its own budget"); if (sure) check(read(r.second, QUERY[i].id, w.docs), score, w.docs, 2); } }
	sym_check(answers == n, "every query is answered once"); sym_reach("searched");
}
