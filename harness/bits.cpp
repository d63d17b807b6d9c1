// C17: bitstring against an array of booleans; bitstream round trip
#include "sym.h"
#include <vector>
#include <limits>
#include "bitstring.h"
#include <stdio.h>
#include "bitstream.h"
using namespace JASS;
static size_t LEN() { size_t k = sym_choose(sym_arg("lens", 6), "len"); static const size_t l[] = {3, 64, 65, 1, 63, 130, 8, 128, 0}; return l[k]; }
static void same(const bitstring &b, const std::vector<uint8_t> &m, int count = 1) {
	sym_check(b.size() == m.size(), "size"); int ok = 1; for (size_t i = 0; i < m.size(); i++) ok &= (int)b.getbit(i) == (int)m[i]; sym_check(ok, "every bit reads back");
	sym_check(b.getbit(m.size()) == 0, "reading past the end gives 0");
	if (!count) return;
	size_t c = 0; for (auto v : m) c += v; sym_check(b.popcount() == c, "popcount counts the set bits");
}
// any sequence of steps operations on one string
extern "C" void history_harness(void) {
	size_t n = LEN(), steps = sym_arg("steps", 3); bitstring b; b.resize(n); std::vector<uint8_t> m(n, 0); same(b, m);
	for (size_t s = 0; s < steps; s++) {
		switch (sym_choose(5, "op")) {
		case 0: { uint64_t p = sym_range(0, n + 5, "p"); b.setbit(p); for (size_t i = 0; i < n; i++) m[i] |= (uint8_t)(i == p); } break;
		case 1: { uint64_t p = sym_range(0, n + 5, "p"); b.unsetbit(p); for (size_t i = 0; i < n; i++) m[i] &= (uint8_t)(i != p); } break;
		case 2: b.zero(); m.assign(n, 0); break;
		case 3: b.one(); m.assign(n, 1); break;
		case 4: { size_t l = LEN(); if (l == n) sym_kill();
			b.resize(l); m.resize(l, 0); n = l; } break;
		}
		same(b, m, n <= 8);
	}
	sym_reach("history");
}
static void fill(bitstring &b, std::vector<uint8_t> &m, size_t n, const char *nm) { b.resize(n); m.assign(n, 0); for (size_t i = 0; i < n; i++) { m[i] = (uint8_t)sym_bool(nm); if (m[i]) b.setbit(i); } }
// set bits without forking: values come from whole bytes
static void fillb(bitstring &b, std::vector<uint8_t> &m, size_t n, const char *nm) { b.resize(n); m.assign(n, 0); size_t len; uint8_t *p = b.serialise(len); std::vector<uint8_t> v((n + 7) / 8); for (size_t i = 0; i < v.size(); i++) { v[i] = sym_u8(nm); if (n % 8 && i == n / 8) v[i] &= (1 << n % 8) - 1; p[i] = v[i]; } for (size_t i = 0; i < n; i++) m[i] = (v[i / 8] >> (i % 8)) & 1; }
extern "C" void ops_harness(void) {
	size_t na = LEN(), nb = LEN(), pre = LEN(); bitstring a, b, c; std::vector<uint8_t> ma, mb, mc; fillb(a, ma, na, "a"); fillb(b, mb, nb, "b"); if (pre) fillb(c, mc, pre, "c");
	size_t n = na > nb ? na : nb; int op = (int)sym_choose(4, "op"); ma.resize(n, 0); mb.resize(n, 0); mc.assign(n, 0);
	for (size_t i = 0; i < n; i++) mc[i] = op == 0 ? ma[i] | mb[i] : op == 1 ? ma[i] ^ mb[i] : op == 2 ? ma[i] & mb[i] : (uint8_t)(ma[i] & (mb[i] ^ 1));
	if (op == 0) a.bit_or(c, b); else if (op == 1) a.bit_xor(c, b); else if (op == 2) a.bit_and(c, b); else a.bit_and_not(c, b);
	same(c, mc, n <= 8); int ok = 1; for (size_t i = 0; i < n; i++) ok &= ((int)a.getbit(i) == ma[i]) & ((int)b.getbit(i) == mb[i]); sym_check(ok, "the operands are unchanged");
	sym_out(c.popcount()); sym_reach("ops");
}
// index(which): the position of the which-th set bit (counting from 1)
extern "C" void index_harness(void) {
	size_t n = sym_arg("n", 16); bitstring a; std::vector<uint8_t> m; fillb(a, m, n, "a");
	size_t w = 1 + sym_choose(n + 1, "w"), want = std::numeric_limits<size_t>::max(), c = 0; for (size_t i = 0; i < n; i++) { c += m[i]; want = (m[i] != 0) & (c == w) ? i : want; }
	size_t got = a.index(w); sym_out(got); sym_check(got == want, "index gives the position of the which-th set bit"); sym_reach("index");
}
extern "C" void popcount_harness(void) {
	uint64_t v = sym_u64("v"); unsigned c = 0; for (int i = 0; i < 64; i++) c += (v >> i) & 1; sym_check(bitstring::popcount(v) == c, "popcount 64");
	uint32_t w = (uint32_t)v; c = 0; for (int i = 0; i < 32; i++) c += (w >> i) & 1; sym_check(bitstring::popcount(w) == c, "popcount 32");
	uint16_t h = (uint16_t)v; c = 0; for (int i = 0; i < 16; i++) c += (h >> i) & 1; sym_check(bitstring::popcount(h) == c, "popcount 16");
	uint8_t b = (uint8_t)v; c = 0; for (int i = 0; i < 8; i++) c += (b >> i) & 1; sym_check(bitstring::popcount(b) == c, "popcount 8");
	sym_reach("popcount");
}
// bitstream: any sequence of pushes into a buffer of any size reads back or fails; never writes outside the buffer
extern "C" void stream_harness(void) {
	size_t words = sym_choose(sym_arg("words", 4), "words"), steps = sym_arg("steps", 4); uint8_t *buf = new uint8_t[words * 4]; bitstream s; s.rewind(buf, words * 4);
	static const unsigned lens[] = {1, 33, 31, 64, 7, 32}; size_t nl = sym_arg("nl", 4); unsigned ln[8]; uint64_t val[8]; size_t total = 0; 
	for (size_t i = 0; i < steps; i++) {
		switch (sym_choose(4, "op")) {
		case 0: { unsigned l = lens[sym_choose(nl, "l")]; uint64_t v = 0x9A3C5E71D2B4F681ULL ^ (sym_u64("v") & (1 | 1ULL << (l - 1))); s.push_bits(v, l); ln[i] = l; val[i] = l == 64 ? v : v & ((1ULL << l) - 1); } break;
		case 1: s.push_one(); ln[i] = 1; val[i] = 1; break;
		case 2: s.push_zero(); ln[i] = 1; val[i] = 0; break;
		case 3: { unsigned l = lens[sym_choose(nl, "l")]; s.push_zeros(l); ln[i] = l; val[i] = 0; } break;
		}
		total += ln[i];
	}
	uint64_t used = s.eof(); sym_out(used); sym_check(used == 0 || used == (total + 7) / 8, "eof returns the number of bytes");
	if (total / 32 + 1 <= words) sym_check(used != 0, "what fits is accepted");
	if (total > words * 32) sym_check(used == 0, "overflow is reported");
	if (used) { bitstream r; r.rewind(buf, words * 4); int ok = 1; for (size_t i = 0; i < steps; i++) ok &= r.get_bits(ln[i]) == val[i]; sym_check(ok, "the bits read back"); sym_reach("read back"); } else sym_reach("overflow");
}
