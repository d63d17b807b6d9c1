// C15: the collection readers deliver each document once, in order, with its bytes and its key, wherever the buffer ends
#include "sym.h"
#include <string>
#include <vector>
#include <memory>
#include <string.h>
#include "instream_memory.h"
#include "instream_document_trec.h"
#include "instream_document_html.h"
#include "instream_document_fasta.h"
#include "instream_document_warc.h"
#include "instream_document_unicoil_json.h"
using namespace JASS;
typedef std::vector<uint8_t> bytes_t;
struct doc { bytes_t contents, key; };
struct collection { bytes_t text; std::vector<doc> docs; size_t most = 0; };
static void add(bytes_t &to, const char *s) { while (*s) to.push_back((uint8_t)*s++); }
static void add(bytes_t &to, const bytes_t &s) { to.insert(to.end(), s.begin(), s.end()); }
static bytes_t text(const char *s) { bytes_t b; add(b, s); return b; }
static int space(uint8_t c) { return either(c == ' ', both(c >= 9, c <= 13)); }
static uint8_t letter(const char *not_these, bool no_space) { uint8_t c = sym_u8("byte"); for (; *not_these; not_these++) sym_assume(c != (uint8_t)*not_these); if (no_space) sym_assume(!space(c)); return c; }
static bytes_t one(const char *not_these, bool no_space = false) { return bytes_t(1, letter(not_these, no_space)); }
static int same(const slice &got, const bytes_t &want) { if (got.size() != want.size()) return 0; int ok = 1; const uint8_t *p = (const uint8_t *)got.address(); for (size_t i = 0; i < want.size(); i++) ok &= p[i] == want[i]; return ok; }
static void deliver(instream &in, const collection &c, const char *kind) {
	for (auto &d : c.docs) { document got; in.read(got); sym_check(got.contents.size() == d.contents.size(), "a document is delivered with its length"); sym_check(same(got.contents, d.contents), "a document is delivered with its bytes"); sym_check(got.primary_key.size() == d.key.size(), "a document is delivered with its key"); sym_check(same(got.primary_key, d.key), "a document's key is its key"); }
	document last; for (int i = 0; i < 2; i++) { in.read(last); sym_check(last.isempty(), "after the last document there are no more"); } sym_out(c.docs.size()); sym_reach(kind);
}
// a stream that returns the text in the pieces given (0 means whatever is asked for); it returns nothing only at the end
struct pieces : public instream {
	const bytes_t &text; std::vector<size_t> cut; size_t at = 0, call = 0;
	pieces(const bytes_t &text, const std::vector<size_t> &cut) : text(text), cut(cut) {}
	virtual void read(document &into) { size_t n = into.contents.size(), left = text.size() - at; if (call < cut.size() && cut[call] && cut[call] < n) n = cut[call]; call++; if (n > left) n = left; if (n) memcpy(&into.contents[0], text.data() + at, n); at += n; into.contents.resize(n); }
};
struct trec : public instream_document_trec { trec(std::shared_ptr<instream> &source, size_t size) : instream_document_trec(source, size, "D", "N") {} };
struct fasta : public instream_document_fasta { fasta(std::shared_ptr<instream> &source, size_t size) : instream_document_fasta(source, size) {} };
static collection trec_text(size_t docs) {
	collection c;
	for (size_t i = 0; i < docs; i++) {
		size_t from = c.text.size(); switch (sym_choose(sym_arg("gaps", 3), "gap")) { case 0: break; case 1: add(c.text, one("<")); break; default: add(c.text, "</D><"); }
		doc d; d.contents = text("<D>"); bytes_t k, b; d.key = text("Unknown");
		switch (sym_choose(sym_arg("shapes", 7), "shape")) {
			case 0: add(d.contents, "<N> "); k = one("<", true); add(d.contents, k); add(d.contents, "\n</N>"); add(d.contents, one("<")); d.key = k; break;
			case 1: break;
			case 2: add(d.contents, one("<")); k = one("<", true); add(k, one("<")); add(k, one("<", true)); add(d.contents, "<N>"); add(d.contents, k); add(d.contents, "</N>"); d.key = k; break;
			case 3: add(d.contents, "<N> </N>"); d.key = bytes_t(); break;
			case 4: add(d.contents, "<N></N></N>"); d.key = bytes_t(); break;
			case 5: add(d.contents, "<N>"); add(d.contents, one("<")); break;
			default: k = one("<", true); add(d.contents, "<D></N><N>"); add(d.contents, k); add(d.contents, "</N><N>x</N>"); d.key = k;
		}
		add(d.contents, "</D>"); add(c.text, d.contents); c.docs.push_back(d); if (c.text.size() - from > c.most) c.most = c.text.size() - from;
	}
	switch (sym_choose(sym_arg("tails", 3), "tail")) { case 0: break; case 1: add(c.text, one("<")); break; default: add(c.text, "<D><N>z</N></D"); if (c.most < 14) c.most = 14; }
	return c;
}
static std::shared_ptr<instream> whole(const collection &c) { return std::shared_ptr<instream>(new instream_memory(c.text.data(), c.text.size())); }
extern "C" void trec_harness(void) { collection c = trec_text(sym_arg("docs", 2)); std::shared_ptr<instream> source = whole(c); trec in(source, c.most + sym_choose(sym_arg("sizes", 24), "buffer")); deliver(in, c, "trec"); }
// a reader may read from another reader, which gives it one document at a time
extern "C" void nested_harness(void) {
	collection c = trec_text(sym_arg("docs", 2)); std::shared_ptr<instream> source = whole(c), inner(new trec(source, c.most + sym_choose(sym_arg("inners", 8), "inner"))); trec in(inner, c.text.size() + 16 + sym_choose(sym_arg("sizes", 3), "buffer")); deliver(in, c, "trec");
}
extern "C" void html_harness(void) {
	collection c; for (size_t i = 0; i < 2; i++) { doc d; d.contents = text(sym_choose(2, "attribute") ? "<html a=b>" : "<html>"); d.key = text("Unknown"); if (sym_choose(2, "title")) { d.key = one("<", true); add(d.contents, "<title>"); add(d.contents, d.key); add(d.contents, "</title>"); } add(d.contents, one("<")); add(d.contents, "</html>"); add(c.text, d.contents); c.docs.push_back(d); }
	std::shared_ptr<instream> source = whole(c); instream_document_html in(source); deliver(in, c, "html");
}
extern "C" void fasta_harness(void) {
	collection c; size_t docs = sym_arg("docs", 2); switch (sym_choose(2, "before")) { case 0: break; default: add(c.text, one(">")); } size_t before = c.text.size();
	for (size_t i = 0; i < docs; i++) {
		doc d; d.key = text(">"); bool last = i + 1 == docs; bytes_t rest;
		switch (sym_choose(sym_arg("heads", 3), "head")) { case 0: add(d.key, one("\n", true)); break; case 1: break; default: add(d.key, "a >"); }
		if (sym_choose(2, "blank")) add(rest, " ");
		bool bare = last && sym_choose(2, "bare"); // only the first line, and no end of line
		if (!bare) { add(rest, "\n"); switch (sym_choose(3, "lines")) { case 0: break; case 1: add(rest, one(">\n")); add(rest, one(">\n")); if (!last || sym_choose(2, "ends")) add(rest, "\n"); break; default: add(rest, "\n"); add(rest, one(">\n")); add(rest, ">"); add(rest, "\n"); } }
		d.contents = d.key; add(d.contents, rest); add(c.text, d.contents); c.docs.push_back(d); if (d.contents.size() > c.most) c.most = d.contents.size();
	}
	std::shared_ptr<instream> source = whole(c); fasta in(source, c.most + before + 1 + sym_choose(sym_arg("sizes", 16), "buffer")); deliver(in, c, "fasta");
}
extern "C" void warc_harness(void) {
	collection c;
	for (size_t i = 0; i < sym_arg("docs", 2); i++) {
		doc d; if (sym_choose(2, "info")) add(c.text, "WARC-Type: warcinfo\nContent-Length: 3\n\nab\n\n"); add(c.text, "WARC/1.0\n"); if (sym_choose(2, "shorter")) add(c.text, "WARC-TREC-I\nWARC-TREC-IDx: z\n: \n\n");
		d.key = one("\n", true); sym_assume(d.key[0] != 0); add(d.key, "\v" + sym_choose(2, "blank")); add(d.key, "z"); add(c.text, "WARC-TREC-ID: "); add(c.text, d.key); add(c.text, "\n"); if (sym_choose(2, "other")) { add(c.text, "Other:"); add(c.text, one("\n")); add(c.text, "\nContent-Lengt: 9\n"); }
		size_t n = 1 + sym_choose(sym_arg("most", 3), "length"); char number[16]; number[0] = (char)('0' + n); number[1] = 0; add(c.text, "Content-Length: "); add(c.text, number); add(c.text, "\n"); for (size_t j = 0; j < n; j++) d.contents.push_back(sym_u8("byte")); add(c.text, d.contents); add(c.text, "\n\n"); c.docs.push_back(d);
	}
	std::shared_ptr<instream> source = whole(c); instream_document_warc in(source); deliver(in, c, "warc");
}
// lines longer than the reader's buffer are skipped
extern "C" void warc_long_harness(void) {
	collection c; doc d; d.key = text("k"); size_t n = 8 * 1024 - 3 + sym_choose(6, "length"); add(c.text, bytes_t(n, 'x')); add(c.text, "\nWARC-TREC-ID: k\n"); add(c.text, bytes_t(n, 'y')); add(c.text, "\nContent-Length: 2\n"); d.contents.push_back(sym_u8("byte")); d.contents.push_back(sym_u8("byte")); add(c.text, d.contents); c.docs.push_back(d);
	std::shared_ptr<instream> source = whole(c); instream_document_warc in(source); deliver(in, c, "warc");
}
// the private parts of the JSON reader, to give it a small buffer
template <typename T, typename T::type M> struct open_up { friend typename T::type get(T) { return M; } };
struct size_of_it { typedef size_t instream_document_unicoil_json::*type; friend type get(size_of_it); };
struct space_of_it { typedef std::string instream_document_unicoil_json::*type; friend type get(space_of_it); };
struct start_of_it { typedef const char *instream_document_unicoil_json::*type; friend type get(start_of_it); };
struct end_of_it { typedef const char *instream_document_unicoil_json::*type; friend type get(end_of_it); };
template struct open_up<size_of_it, &instream_document_unicoil_json::buffer_size>;
template struct open_up<space_of_it, &instream_document_unicoil_json::buffer>;
template struct open_up<start_of_it, &instream_document_unicoil_json::buffer_start>;
template struct open_up<end_of_it, &instream_document_unicoil_json::buffer_end>;
extern "C" void json_harness(void) {
	collection c;
	for (size_t i = 0; i < sym_arg("docs", 2); i++) {
		doc d; d.key = one("\"\n{}"); sym_assume(d.key[0] != 0); add(d.key, sym_choose(sym_arg("keys", 2), "longer") ? "key-number" : ""); add(c.text, "{\"id\": \""); add(c.text, d.key); add(c.text, "\", "); if (sym_choose(2, "text")) { add(c.text, "\"contents\": \""); add(c.text, one(sym_arg("free", 0) ? "\"\n" : "\"\n{}")); add(c.text, "\", "); } add(c.text, "\"vector\": {");
		for (size_t j = 0, n = 1 - sym_choose(sym_arg("terms", 2), "terms"); j < n; j++) { add(d.contents, "\""); add(d.contents, one(sym_arg("free", 0) ? "\"\n" : "\"\n{}")); add(d.contents, "\": 9"); } if (d.contents.empty()) add(d.contents, " ");
		add(c.text, d.contents); add(c.text, "}}\n"); if (sym_choose(2, "blank")) add(c.text, "\n"); c.docs.push_back(d);
	}
	size_t size = 20 + 8 * sym_choose(sym_arg("sizes", 5), "buffer"), first = 1 + sym_choose(3, "first") * 9; if (first > size) first = size;
	std::vector<size_t> cut; cut.push_back(first); for (size_t i = 0; i < 2; i++) { static const size_t n[] = {0, 1, 13, 31}; cut.push_back(n[sym_choose(sym_arg("cuts", 4), "piece")]); }
	std::shared_ptr<instream> source(new pieces(c.text, cut)); instream_document_unicoil_json in(source); size_t had = (size_t)(in.*get(end_of_it()) - in.*get(start_of_it()));
	std::string &buffer = in.*get(space_of_it()); buffer.resize(size); buffer.shrink_to_fit(); in.*get(size_of_it()) = size; in.*get(start_of_it()) = &buffer[0]; in.*get(end_of_it()) = &buffer[0] + had;
	deliver(in, c, "json");
}
