// C01: encode/decode round trip of every codec that can be selected by name.
#include "sym.h"
#include <vector>
#include <memory>
#include <array>
#include "compress_integer_all.h"
#include "compress_integer_lyck_16.h"
#include "compress_integer_nybble_8.h"
using namespace JASS;
// per-codec documented range (see DESIGN.md C01): lowest value, number of bits
struct range { unsigned lo, bits; };
static range range_of(unsigned c) {
	switch (c) {
	case 0: return {0, 28};                                        // carryover-12
	case 2: case 3: case 4: case 5: case 6: return {1, 32};        // Elias codes: positive integers
	case 7: case 8: return {1, 32};
	case 10: case 11: return {0, 28};                              // simple-9/16 packed
	case 13: case 14: case 15: return {0, 28};                     // relative-10, simple-9, simple-16
	case 26: return {0, 16};                                       // lyck-16 (not selectable by name)
	case 27: return {0, 8};                                        // nybble-8 (not selectable by name)
	default: return {0, 32};
	}
}
static std::unique_ptr<compress_integer> codec(unsigned c) { if (c == 26) return std::make_unique<compress_integer_lyck_16>(); if (c == 27) return std::make_unique<compress_integer_nybble_8>(); std::array<bool, compress_integer_all::compressors_size> opt; opt.fill(false); opt[c] = true; return compress_integer_all::compressor(opt); }
static void roundtrip(unsigned c, const uint32_t *src, size_t n) {
	auto e = codec(c); auto d = codec(c);
	size_t cap = n * 16 + 1024; uint8_t *enc = new uint8_t[cap]; uint32_t *out = new uint32_t[n + 1024]; // the slack the library's own callers leave
	for (size_t i = 0; i < cap; i++) enc[i] = 0xA5;
	for (size_t i = 0; i < n + 1024; i++) out[i] = 0x5A5A5A5A;
	size_t used = e->encode(enc, cap, src, n);
	if (c == 1) { // Carry-8b: the refusal of a list that fits in the first (57-bit) codeword is told apart from any other refusal
		static const unsigned cap57[][2] = {{1, 57}, {2, 28}, {3, 19}, {4, 14}, {5, 11}, {6, 9}, {7, 8}, {8, 7}, {9, 6}, {11, 5}, {14, 4}, {19, 3}, {28, 2}, {57, 1}};
		uint32_t any = 0; int zero = 0; for (size_t i = 0; i < n; i++) { any |= src[i]; zero |= src[i] == 0; }
		int fits = 0; for (auto &x : cap57) if (n <= x[1]) fits |= both(x[0] >= 32 || (any >> x[0]) == 0, either(!zero, x[0] > 1));
		if (used == 0) { sym_check(!fits, "Carry-8b accepts a list that fits in its first codeword"); }
	}
	sym_check(used != 0, "encode accepts every list in range");
	sym_check(used <= cap, "encoded size within buffer");
	d->decode(out, n, enc, used);
	int ok = 1; for (size_t i = 0; i < n; i++) ok &= out[i] == src[i];
	sym_check(ok, "decode(encode(x)) == x");
	sym_out(used); for (size_t i = 0; i < n && i < 8; i++) sym_out(out[i]);
	sym_reach("roundtrip");
}
// every list of 1..n integers
extern "C" void all_harness(void) {
	unsigned c = sym_arg("codec", 17); range r = range_of(c); size_t mx = sym_arg("n", 3), n = sym_choose(mx, "n") + 1;
	uint32_t *src = new uint32_t[n];
	for (size_t i = 0; i < n; i++) { src[i] = sym_u32("v"); sym_assume(both(src[i] >= r.lo, r.bits == 32 || src[i] < (1u << r.bits))); }
	roundtrip(c, src, n);
}
// a value of exactly w bits (w = 0 is the value 0)
static uint32_t width(unsigned w, unsigned lo, const char *nm) {
	if (w == 0) return 0;
	uint64_t l = 1ULL << (w - 1), h = (1ULL << w) - 1; if (l < lo) l = lo;
	return (uint32_t)sym_range(l, h, nm);
}
// long runs: s values of exactly wa bits, then the rest of exactly wb bits (every wa, wb from a set around wa; every split of a grid)
extern "C" void run_harness(void) {
	unsigned c = sym_arg("codec", 17); range r = range_of(c); size_t n = sym_arg("n", 64); unsigned min = r.lo ? 1 : 0;
	unsigned wa = min + (unsigned)sym_choose(r.bits - min + 1, "wa"), wb; unsigned mode = (unsigned)sym_arg("modes", 5);
	switch (sym_choose(mode, "wb")) { case 0: wb = wa; break; case 1: wb = 1; break; case 2: wb = wa + 1; break; case 3: wb = wa ? wa - 1 : 0; break; default: wb = r.bits; }
	if (wb < min || wb > r.bits) sym_kill();
	size_t grid = sym_arg("grid", 4), s = wa == wb ? n : 1 + sym_choose(grid, "split") * (n - 1) / grid;
	uint32_t *src = new uint32_t[n];
	for (size_t i = 0; i < n; i++) src[i] = width(i < s ? wa : wb, r.lo, "v");
	roundtrip(c, src, n);
}
// one exceptional value at any position of a run of values of at most w bits
extern "C" void exc_harness(void) {
	unsigned c = sym_arg("codec", 17); range r = range_of(c); size_t n = sym_arg("n", 64); unsigned min = r.lo ? 1 : 0;
	unsigned w = min + (unsigned)sym_choose(sym_arg("whi", 4) - min + 1, "w"), wx = min + (unsigned)sym_choose(r.bits - min + 1, "wx");
	size_t p = sym_choose(n, "p"); uint32_t *src = new uint32_t[n];
	for (size_t i = 0; i < n; i++) src[i] = width(i == p ? wx : w, r.lo, "v");
	roundtrip(c, src, n);
}
// m free values in the middle of a run of width-w values
extern "C" void mid_harness(void) {
	unsigned c = sym_arg("codec", 17); range r = range_of(c); size_t n = sym_arg("n", 16), m = sym_arg("m", 2); unsigned min = r.lo ? 1 : 0;
	unsigned w = min + (unsigned)sym_choose(sym_arg("whi", 8) - min + 1, "w"); size_t p = sym_choose(n - m + 1, "p"); uint32_t *src = new uint32_t[n];
	for (size_t i = 0; i < n; i++) if (i >= p && i < p + m) { src[i] = sym_u32("v"); sym_assume(both(src[i] >= r.lo, r.bits == 32 || src[i] < (1u << r.bits))); } else src[i] = width(w, r.lo, "r");
	roundtrip(c, src, n);
}
// for the codecs that work a bit at a time: every width of two neighbouring values, the top and the low f bits of each free, the middle filled with one bit value
extern "C" void low_harness(void) {
	unsigned c = sym_arg("codec", 3); range r = range_of(c); unsigned f = sym_arg("free", 2); size_t n = 2; uint32_t *src = new uint32_t[n];
	for (size_t i = 0; i < n; i++) {
		unsigned w = 1 + (unsigned)sym_choose(r.bits, "w"); uint64_t top = 1ULL << (w - 1), low = (1ULL << (w - 1 < f ? w - 1 : f)) - 1, mid = sym_choose(2, "middle") ? top - 1 - low : 0;
		src[i] = (uint32_t)(top | mid | (sym_u32("v") & low));
	}
	roundtrip(c, src, n);
}
// every list of 1..n 32-bit integers, in range or not: refused, or exact
extern "C" void refuse_harness(void) {
	unsigned c = sym_arg("codec", 17); size_t mx = sym_arg("n", 2), n = sym_choose(mx, "n") + 1; uint32_t *src = new uint32_t[n]; for (size_t i = 0; i < n; i++) src[i] = sym_u32("v");
	auto e = codec(c); auto d = codec(c); size_t cap = n * 16 + 1024; uint8_t *enc = new uint8_t[cap]; uint32_t *out = new uint32_t[n + 1024]; for (size_t i = 0; i < cap; i++) enc[i] = 0xA5; for (size_t i = 0; i < n + 1024; i++) out[i] = 0x5A5A5A5A;
	size_t used = e->encode(enc, cap, src, n); sym_out(used); if (used == 0) { sym_reach("refused"); return; }
	d->decode(out, n, enc, used); int ok = 1; for (size_t i = 0; i < n; i++) ok &= out[i] == src[i]; sym_check(ok, "a list out of range is refused or kept exactly"); sym_reach("accepted");
}
