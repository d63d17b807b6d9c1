// C27: what is indexed with JASS_index is found by the anytime search
#include "sym.h"
#include <string.h>
#include <string>
#include <vector>
#define main index_main
#include "JASS_index.cpp"
#undef main
#include "JASS_anytime_api.h"
extern "C" void sym_tables(void);
static const char *const KEY[] = {"K", "Q", "V"}; // the key is part of the document too
struct word { const char *text; int term; }; // a term of -1 is not indexed
static const word WORD[] = {{"a", 0}, {"b", 1}, {"A", 0}, {"<b>", -1}, {"10", 2}, {".", -1}, {"b-a", 3}, {"", -1}};
static const char *const TERM[] = {"a", "b", "10"}; enum { TERMS = 3, DOCS = 3 };
struct truth { size_t docs, length[DOCS]; size_t tf[DOCS][TERMS]; };
static void write(const std::string &s) { FILE *fp = fopen("in.xml", "wb"); fwrite(s.data(), 1, s.size(), fp); fclose(fp); }
struct hit { size_t doc, score; };
static bool eat(const std::string &s, size_t &at, const char *t) { size_t n = strlen(t); if (s.compare(at, n, t) != 0) return false; at += n; return true; }
static size_t number(const std::string &s, size_t &at) { size_t v = 0; while (at < s.size() && s[at] >= '0' && s[at] <= '9') v = v * 10 + (size_t)(s[at++] - '0'); return v; }
static std::vector<size_t> ask(JASS_anytime_api &api, const std::string &query, const truth &t) {
	std::vector<size_t> score(t.docs, 0); JASS_anytime_result r = api.search("7 " + query); size_t at = 0, rank = 0, last = ~(size_t)0; const std::string &s = r.results_list;
	while (at < s.size()) {
		bool ok = eat(s, at, "7 Q0 "); size_t d = 0; for (; d < t.docs; d++) { size_t k = at; if (eat(s, k, KEY[d]) && k < s.size() && s[k] == ' ') { at = k + 1; break; } } ok = ok && d < t.docs; size_t n = number(s, at); ok = ok && eat(s, at, " "); size_t v = number(s, at); ok = ok && eat(s, at, " JASSv2"); while (at < s.size() && s[at] != '\n') at++; at++;
		sym_check(ok, "each line of the results names a document of the collection"); if (!ok) break; sym_check(n == ++rank, "ranks count from 1"); sym_check(score[d] == 0, "no document is returned twice"); sym_check(v > 0, "a document that is found has a score"); sym_check(v <= last, "documents are ranked by score"); last = v; score[d] = v;
	}
	for (size_t v : score) sym_out(v); return score;
}
static void index(const char *how) { const char *argv[] = {"JASS_index", "-q", "-f", "in.xml", how, nullptr}; sym_check(index_main(5, argv) == 0, "the collection is indexed"); }
extern "C" void trec_harness(void) {
	truth t; memset(&t, 0, sizeof(t)); t.docs = 1 + sym_choose(sym_arg("docs", 2), "documents"); std::string text; size_t words = sym_arg("words", 2), kinds = sym_arg("kinds", 6), all[TERMS] = {0};
	for (size_t d = 0; d < t.docs; d++) { text += std::string("<DOC><DOCNO>") + KEY[d] + "</DOCNO>"; t.length[d] = 1; for (size_t i = 0; i < words; i++) { const word &w = WORD[sym_choose(kinds, "word")]; text += " "; text += w.text; if (w.term >= 0) t.length[d]++; if (w.term == 3) { t.tf[d][0]++; t.tf[d][1]++; } else if (w.term >= 0) t.tf[d][w.term]++; } text += "</DOC>\n"; }
	write(text); size_t version = 1 + sym_choose(2, "version"); index(version == 1 ? "-I1" : "-I2");
	sym_tables(); JASS_anytime_api &api = *new JASS_anytime_api; sym_check(api.set_top_k(DOCS + 1) == JASS_ERROR_OK, "top-k accepted"); sym_check(api.load_index(version, "") == JASS_ERROR_OK, "the index loads"); sym_check(api.get_document_count() == t.docs, "all documents are in the index");
	std::vector<size_t> one[TERMS];
	for (size_t i = 0; i < TERMS; i++) {
		one[i] = ask(api, TERM[i], t);
		for (size_t d = 0; d < t.docs; d++) { sym_check((one[i][d] != 0) == (t.tf[d][i] != 0), "a term finds exactly the documents it is in"); for (size_t e = 0; e < t.docs; e++) if (t.length[d] == t.length[e] && t.tf[d][i] > t.tf[e][i]) sym_check(one[i][d] >= one[i][e], "more occurrences in as long a document are no worse"); }
	}
	for (size_t d = 0; d < t.docs; d++) { std::vector<size_t> key = ask(api, KEY[d][0] == 'K' ? "k" : KEY[d][0] == 'Q' ? "q" : "v", t); for (size_t e = 0; e < t.docs; e++) sym_check((key[e] != 0) == (e == d), "the words of the document number are found in the document"); }
	std::vector<size_t> two = ask(api, "a b", t), same = ask(api, "B A", t), none = ask(api, "zz", t); for (size_t d = 0; d < t.docs; d++) { sym_check((two[d] != 0) == (one[0][d] + one[1][d] != 0), "two terms find the documents that either finds"); for (size_t e = 0; e < t.docs; e++) if (t.length[d] == t.length[e] && t.tf[d][0] >= t.tf[e][0] && t.tf[d][1] >= t.tf[e][1]) sym_check(two[d] >= two[e], "a document as long with no fewer of either term is no worse"); sym_check(same[d] == two[d], "neither the order of the terms nor their case matters"); sym_check(none[d] == 0, "a term that is in no document finds none"); }
	sym_reach("found");
}
