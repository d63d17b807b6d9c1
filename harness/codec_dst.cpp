// C02: encoders against destination buffers of every size. The destination is an object of exactly that size, so a write
// outside it is a memory violation found by the executor (and by AddressSanitizer on replay).
#define ROUNDTRIP_ONLY
#include "codec.cpp"
static void into(unsigned c, const uint32_t *src, size_t n, size_t d) {
	auto e = codec(c); uint8_t *enc = new uint8_t[d]; for (size_t i = 0; i < d; i++) enc[i] = 0xA5;
	size_t used = e->encode(enc, d, src, n); sym_out(used);
	sym_check(used <= d, "the reported size fits the buffer");
	if (used) { // what was reported as encoded must be the list
		sym_reach("fits"); auto dd = codec(c); uint8_t *big = new uint8_t[d + 1024]; uint32_t *out = new uint32_t[n + 1024]; for (size_t i = 0; i < d + 1024; i++) big[i] = i < used ? enc[i] : 0xA5;
		dd->decode(out, n, big, used); int ok = 1; for (size_t i = 0; i < n; i++) ok &= out[i] == src[i]; sym_check(ok, "a reported success is decodable");
	} else sym_reach("refused");
	delete[] enc;
}
// every list of 1..n integers, every buffer of 0..d bytes
extern "C" void small_harness(void) {
	unsigned c = sym_arg("codec", 17); range r = range_of(c); size_t n = sym_choose(sym_arg("n", 2), "n") + 1, d = sym_choose(sym_arg("d", 24) + 1, "d");
	uint32_t *src = new uint32_t[n];
	for (size_t i = 0; i < n; i++) { src[i] = sym_u32("v"); sym_assume(both(src[i] >= r.lo, r.bits == 32 || src[i] < (1u << r.bits))); }
	into(c, src, n, d);
}
// runs: buffers a few bytes either side of the size the list needs
extern "C" void near_harness(void) {
	unsigned c = sym_arg("codec", 17); range r = range_of(c); size_t n = sym_arg("n", 40); unsigned min = r.lo ? 1 : 0;
	unsigned wa = min + (unsigned)sym_choose(r.bits - min + 1, "wa"), wb = sym_choose(2, "wb") ? r.bits : wa; size_t s = wa == wb ? n : n / 2;
	uint32_t *src = new uint32_t[n]; for (size_t i = 0; i < n; i++) src[i] = width(i < s ? wa : wb, r.lo, "v");
	auto e = codec(c); uint8_t *big = new uint8_t[n * 16 + 1024]; size_t need = e->encode(big, n * 16 + 1024, src, n);
	size_t slack = sym_arg("slack", 2), step = sym_arg("step", 1), back = step * sym_choose(sym_arg("back", 12), "back"); need = sym_concretize(need); if (need == 0 || need + slack < back) sym_stop();
	into(c, src, n, need + slack - back);
}
// the bitwise codecs: one value with free low bits
extern "C" void tiny_harness(void) {
	unsigned c = sym_arg("codec", 3), f = sym_arg("free", 2); size_t n = 1 + sym_choose(2, "n"), d = sym_choose(sym_arg("d", 12) + 1, "d"); uint32_t *src = new uint32_t[n];
	for (size_t i = 0; i < n; i++) { static const unsigned ws[] = {1, 2, 8, 15, 16, 32}; unsigned w = ws[sym_choose(6, "w")]; uint64_t low = (1ULL << (w - 1 < f ? w - 1 : f)) - 1; src[i] = (uint32_t)((1ULL << (w - 1)) | (sym_u32("v") & low)); }
	into(c, src, n, d);
}
