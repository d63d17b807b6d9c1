// C22: files, channels and in-memory streams deliver exactly the bytes that were written, in order
#include "sym.h"
#include <stdio.h>
#include <string>
#include <vector>
#include <memory>
#include "file.h"
#include "channel_file.h"
#include "channel_buffer.h"
#include "instream_memory.h"
#include "instream_file.h"
#include "instream_file_star.h"
#include "allocator_pool.h"
#include "allocator_cpp.h"
using namespace JASS;
typedef std::vector<uint8_t> bytes_t;
static bytes_t some(size_t n, const char *name) { bytes_t b(n + 1); if (n) sym_bytes(b.data(), n, name); b.resize(n); return b; }
static int same(const uint8_t *a, const uint8_t *b, size_t n) { int ok = 1; for (size_t i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
static void put(const char *name, const bytes_t &b) { FILE *fp = fopen(name, "wb"); if (!b.empty()) fwrite(b.data(), 1, b.size(), fp); fclose(fp); }
static bytes_t get(const char *name) { bytes_t all; FILE *fp = fopen(name, "rb"); sym_check(fp != nullptr, "what was written is there"); uint8_t c; while (fread(&c, 1, 1, fp) == 1) all.push_back(c); fclose(fp); return all; }
static void holds(const char *name, const bytes_t &want) { bytes_t got = get(name); sym_check(got.size() == want.size(), "the file holds as many bytes as were written"); sym_check(same(got.data(), want.data(), want.size()), "the file holds the bytes that were written"); }

// any sequence of writes, seeks and (after a seek) reads through a file object with a small buffer
extern "C" void file_harness(void) {
	size_t steps = sym_arg("steps", 4), most = sym_arg("most", 5); bytes_t model; size_t at = 0; const char *name = "c22.bin"; put(name, bytes_t());
	{
		file out(name, "w+b"); sym_check(out.setvbuf(1 + sym_choose(sym_arg("buffers", 4), "buffer")) == 1, "setvbuf succeeds"); bool reading = false, positioned = true;
		for (size_t i = 0; i < steps; i++) {
			switch (sym_choose(3, "what")) {
				case 0: {
					if (reading) sym_kill(); // as in C, a seek comes between a read and a write
					size_t n = sym_choose(most + 1, "length"); bytes_t b = some(n, "data"); sym_check(out.write(b.data(), n) == 1, "a write succeeds"); if (at + n > model.size()) model.resize(at + n); for (size_t j = 0; j < n; j++) model[at + j] = b[j]; at += n; positioned = false; break;
				}
				case 1: { at = sym_choose(model.size() + 1, "offset"); out.seek(at); reading = false; positioned = true; break; }
				default: {
					if (!positioned) sym_kill();
					size_t n = 1 + sym_choose(most, "length"), left = model.size() - at, want = n < left ? n : left; bytes_t b(n, 0xEE);
					if (sym_choose(2, "vector")) { out.read(b); sym_check(b.size() == want, "a vector is cut to the bytes there were"); }
					else sym_check(out.read(b.data(), n) == want, "read() returns the number of bytes there were");
					sym_check(same(b.data(), model.data() + at, want), "read() returns the bytes that are there"); at += want; reading = true;
				}
			}
			sym_check(out.tell() == at, "tell() is the offset of the next byte");
		}
	}
	holds(name, model); sym_out(model.size()); remove(name); sym_reach("file");
}
// pieces around the default-like larger buffer
extern "C" void boundary_harness(void) {
	size_t size = sym_arg("buffer", 16); bytes_t model; const char *name = "c22.bin";
	{ file out(name, "wb"); out.setvbuf(size); for (size_t i = 0; i < 3; i++) { size_t n = sym_choose(2, "big") ? (1 + sym_choose(2, "times")) * size - 1 + sym_choose(3, "over") : sym_choose(3, "small"); bytes_t b = some(n, "data"); if (sym_choose(2, "string")) out.write(std::string((char *)b.data(), n)); else out.write(b.data(), n); model.insert(model.end(), b.begin(), b.end()); sym_check(out.tell() == model.size(), "tell() is the number of bytes written"); } }
	holds(name, model); sym_out(model.size()); remove(name); sym_reach("boundary");
}
extern "C" void entire_harness(void) {
	size_t n = sym_choose(sym_arg("most", 6) + 1, "length"); bytes_t b = some(n, "data"); const char *name = "c22.bin"; std::string text((char *)b.data(), n), into(sym_choose(3, "before") * 4, 'x');
	sym_check(file::write_entire_file(name, text), "writing a whole file succeeds"); holds(name, b);
	sym_check(file::read_entire_file(name, into) == n, "reading a whole file returns its length"); sym_check(into.size() == n, "the whole file is read, and nothing else"); sym_check(same((uint8_t *)into.data(), b.data(), n), "the whole file is read");
	{ file::file_read_only map; const uint8_t *p = nullptr; sym_check(file::read_entire_file(name, map) == n, "mapping a file returns its length"); sym_check(map.read_entire_file(p) == n, "a mapped file has the file's length"); sym_check(same(p, b.data(), n), "a mapped file has the file's bytes"); }
	{ file f(name, "rb"); sym_check(f.size() == n, "size() is the file's length"); sym_check(f.tell() == 0, "a file starts at 0"); bytes_t c(n + 1); sym_check(f.read(c.data(), n + 1) == n, "size() leaves the position alone"); sym_check(f.tell() == n, "tell() counts the bytes that were read"); }
	remove(name); std::string none = "y"; sym_check(file::read_entire_file(name, none) == 0, "a missing file has no bytes"); { file::file_read_only map; sym_check(file::read_entire_file(name, map) == 0, "a missing file has no bytes"); } sym_check(!file::write_entire_file("", text), "a file that cannot be opened is reported"); sym_reach("entire");
}
extern "C" void lines_harness(void) {
	size_t n = sym_choose(sym_arg("n", 4) + 1, "length"); std::string text; for (size_t i = 0; i < n; i++) { unsigned char c; switch (sym_choose(3, "kind")) { case 0: c = '\n'; break; case 1: c = '\r'; break; default: c = sym_u8("byte"); sym_assume(both(c != '\n', c != '\r')); sym_assume(c != 0); } text.push_back((char)c); }
	std::vector<std::string> want; std::string line; for (size_t i = 0; i <= n; i++) if (i == n || text[i] == '\n' || text[i] == '\r') { if (!line.empty()) want.push_back(line); line.clear(); } else line.push_back(text[i]);
	std::vector<uint8_t *> got(sym_choose(2, "before"), nullptr); file::buffer_to_list(got, text); sym_check(got.size() == want.size(), "a file has as many lines as it has");
	for (size_t i = 0; i < want.size(); i++) { sym_check(strlen((char *)got[i]) == want[i].size(), "lines end where they end"); sym_check(same(got[i], (uint8_t *)want[i].data(), want[i].size()), "lines are the file's lines, in order"); }
	sym_out(want.size()); sym_reach("lines");
}
static bytes_t letters(size_t n) { bytes_t b; for (size_t i = 0; i < n; i++) { unsigned char c = '\n'; if (sym_choose(2, "kind")) { c = sym_u8("byte"); sym_assume(both(c != '\n', c != 0)); } b.push_back(c); } return b; }
static void drain(channel &in, const bytes_t &b, size_t steps) {
	size_t at = 0; allocator_pool pool(1024); allocator_cpp<char> memory(pool);
	for (size_t i = 0; i < steps; i++) {
		size_t left = b.size() - at, line = 0; while (line < left) if (b[at + line++] == '\n') break;
		switch (sym_choose(3, "how")) {
			case 0: { size_t n = 1 + sym_choose(sym_arg("most", 3), "bytes"), want = n < left ? n : left; std::string into(n, '#'); in.read(into); sym_check(into.size() == want, "a read is short only at the end"); sym_check(same((uint8_t *)into.data(), b.data() + at, want), "a channel returns the bytes in order"); at += want; break; }
			case 1: { std::string into("before"); in.gets(into); sym_check(into.size() == line, "gets() returns one line"); sym_check(same((uint8_t *)into.data(), b.data() + at, line), "gets() returns the line"); at += line; break; }
			default: { JASS::string into(memory); in.gets(into); sym_check(into.size() == line, "gets() returns one line"); sym_check(same((uint8_t *)into.data(), b.data() + at, line), "gets() returns the line"); at += line; }
		}
	}
	sym_out(at);
}
extern "C" void buffer_harness(void) {
	bytes_t b = letters(sym_choose(sym_arg("n", 4) + 1, "length")); std::shared_ptr<char> text(new char[b.size() + 1], std::default_delete<char[]>()); for (size_t i = 0; i < b.size(); i++) text.get()[i] = (char)b[i]; text.get()[b.size()] = 0;
	channel_buffer in(text); drain(in, b, sym_arg("steps", 3)); sym_reach("buffer");
}
extern "C" void input_harness(void) {
	bytes_t b = letters(sym_choose(sym_arg("n", 4) + 1, "length")); const char *name = "c22.txt"; put(name, b); { channel_file in{std::string(name)}; drain(in, b, sym_arg("steps", 3)); } remove(name); sym_reach("input");
}
static void add(bytes_t &to, const std::string &s) { to.insert(to.end(), s.begin(), s.end()); }
extern "C" void output_harness(void) {
	const char *name = "c22.txt"; bytes_t want; remove(name); if (sym_choose(2, "exists")) { put(name, bytes_t(2, 'o')); want = bytes_t(2, 'o'); } allocator_pool pool(1024); allocator_cpp<char> memory(pool);
	for (size_t open = 0; open < sym_arg("opens", 2); open++) {
		channel_file out{std::string(name)};
		for (size_t i = 0; i < sym_arg("steps", 2); i++) {
			size_t n = sym_choose(3, "length"); std::string s; for (size_t j = 0; j < n; j++) { char c = (char)sym_u8("byte"); sym_assume(c != 0); s.push_back(c); }
			switch (sym_choose(6, "how")) {
				case 0: out << s; add(want, s); break;
				case 1: out.puts(s); add(want, s + "\n"); break;
				case 2: out << s.c_str(); add(want, s); break;
				case 3: out << (const unsigned char *)s.c_str(); add(want, s); break;
				case 4: { JASS::string t(s.c_str(), memory); out << t; add(want, s); break; }
				default: { static const int v[] = {0, -7, 42}; out << v[n]; static const char *const t[] = {"0", "-7", "42"}; add(want, t[n]); }
			}
		}
	}
	if (want.empty()) { FILE *fp = fopen(name, "ab"); fclose(fp); } holds(name, want); sym_out(want.size()); remove(name); sym_reach("output");
}
static void pieces(instream &in, const bytes_t &b, size_t steps) {
	size_t at = 0; for (size_t i = 0; i < steps; i++) { size_t n = 1 + sym_choose(sym_arg("most", 4), "bytes"), left = b.size() - at, want = n < left ? n : left; bytes_t into(n, 0xEE); sym_check(in.fetch(into.data(), n) == want, "a fetch is short only at the end, and empty after it"); sym_check(same(into.data(), b.data() + at, want), "a stream returns the bytes in order"); at += want; } sym_out(at);
}
extern "C" void memory_harness(void) { bytes_t b = some(sym_choose(sym_arg("n", 6) + 1, "length"), "data"); instream_memory in(b.data(), b.size()); pieces(in, b, sym_arg("steps", 4)); sym_reach("stream"); }
extern "C" void disk_harness(void) { bytes_t b = some(sym_choose(sym_arg("n", 6) + 1, "length"), "data"); const char *name = "c22.bin"; put(name, b); { instream_file in{std::string(name)}; pieces(in, b, sym_arg("steps", 4)); } remove(name); sym_reach("stream"); }
extern "C" void pipe_harness(void) { bytes_t b = some(sym_choose(sym_arg("n", 6) + 1, "length"), "data"); const char *name = "c22.bin"; put(name, b); { FILE *fp = fopen(name, "rb"); instream_file_star in(fp); pieces(in, b, sym_arg("steps", 4)); } remove(name); sym_reach("stream"); }
