// C03: d-gap coding and the vector helpers against their scalar definitions
#include "sym.h"
#include <vector>
#include "compress_integer.h"
#include "simd.h"
using namespace JASS;
// encode/decode in place or into another buffer, any gap
extern "C" void delta_harness(void) {
	size_t mx = sym_arg("n", 12), n = 1 + sym_choose(mx, "n"), gap = sym_choose(n < 17 ? n + 1 : 17, "gap"); int inplace = (int)sym_choose(2, "inplace");
	uint32_t *src = new uint32_t[n], *a = new uint32_t[n], *b = inplace ? a : new uint32_t[n], *c = inplace ? a : new uint32_t[n];
	for (size_t i = 0; i < n; i++) a[i] = src[i] = sym_u32("v");
	size_t r1, r2;
	if (gap == 0) { r1 = compress_integer::d1_encode(b, a, n); for (size_t i = 0; i < n; i++) sym_out(b[i]); int ok = 1; for (size_t i = 0; i < n; i++) ok &= b[i] == (uint32_t)(src[i] - (i ? src[i - 1] : 0)); sym_check(ok, "d1_encode gives the differences"); r2 = compress_integer::d1_decode(c, b, n); }
	else { r1 = compress_integer::dn_encode(b, a, n, gap); int ok = 1; for (size_t i = 0; i < n; i++) ok &= b[i] == (uint32_t)(src[i] - (i >= gap ? src[i - gap] : 0)); sym_check(ok, "dn_encode gives the differences"); r2 = compress_integer::dn_decode(c, b, n, gap); }
	sym_check(r1 == n, "encode returns the number of integers"); sym_check(r2 == n, "decode returns the number of integers");
	int ok = 1; for (size_t i = 0; i < n; i++) ok &= c[i] == src[i];
	sym_check(ok, "delta decode(encode(x)) == x"); sym_reach("delta");
}
extern "C" void cumsum_harness(void) {
	size_t mx = sym_arg("n", 40), n = sym_choose(mx + 1, "n"); int which = (int)sym_choose(2, "which"); size_t w = which ? 16 : 8, cap = (n + w - 1) / w * w;
	uint32_t *d = new uint32_t[cap ? cap : 1]; std::vector<uint32_t> s(cap); for (size_t i = 0; i < cap; i++) d[i] = s[i] = sym_u32("v");
	if (which) simd::cumulative_sum_512(d, n); else simd::cumulative_sum_256(d, n);
	uint32_t sum = 0; int ok = 1; for (size_t i = 0; i < n; i++) { sum += s[i]; ok &= d[i] == sum; }
	sym_check(ok, "cumulative_sum == scalar prefix sum"); for (size_t i = 0; i < n && i < 4; i++) sym_out(d[i]); sym_reach("cumsum");
}
template <typename T> static void gather(int wide) {
	const size_t N = 24; T a[N + 4]; for (size_t i = 0; i < N + 4; i++) a[i] = (T)sym_u32("a");
	uint32_t idx[16], got[16]; size_t lanes = wide ? 16 : 8; for (size_t i = 0; i < lanes; i++) idx[i] = (uint32_t)sym_range(0, N - 1, "i");
	if (wide) { __m512i r = simd::gather(a, _mm512_loadu_si512(idx)); _mm512_storeu_si512(got, r); } else { __m256i r = simd::gather(a, _mm256_loadu_si256((__m256i *)idx)); _mm256_storeu_si256((__m256i *)got, r); }
	for (size_t i = 0; i < lanes; i++) { uint32_t want = 0; for (size_t j = 0; j < N; j++) want |= (uint32_t)a[j] & (0u - (uint32_t)(idx[i] == j)); sym_check(got[i] == want, "gather == array[index] zero extended"); }
	sym_out(got[0]); sym_out(got[lanes - 1]); sym_reach("gather");
}
extern "C" void gather_harness(void) { int wide = (int)sym_choose(2, "wide"); switch (sym_choose(3, "t")) { case 0: gather<uint8_t>(wide); break; case 1: gather<uint16_t>(wide); break; default: gather<uint32_t>(wide); } }
// scatter: distinct indexes at symbolic positions around a base
template <typename T> static void scatter(int wide) {
	const size_t N = 40; T a[N + 4], was[N + 4]; for (size_t i = 0; i < N + 4; i++) was[i] = a[i] = (T)sym_u32("a");
	size_t lanes = wide == 2 ? 16 : wide == 1 ? 8 : 4; uint32_t idx[16], val[16]; size_t stride = 1 + sym_choose(2, "stride"), rot = sym_choose(2, "rot") * 3;
	size_t free1 = sym_choose(lanes, "free"); // one lane is anywhere, the others on a grid
	for (size_t i = 0; i < lanes; i++) { idx[i] = (uint32_t)(((i + rot) % lanes) * stride + rot); val[i] = sym_u32("v"); }
	uint32_t p = (uint32_t)sym_choose(N, "p"); for (size_t i = 0; i < lanes; i++) if (i != free1 && p == idx[i]) sym_kill();
	idx[free1] = p;
	for (size_t i = 0; i < lanes; i++) if (sizeof(T) < 4) val[i] &= (1u << (8 * sizeof(T) % 32)) - 1;
	if (wide == 2) simd::scatter(a, _mm512_loadu_si512(idx), _mm512_loadu_si512(val)); else if (wide == 1) simd::scatter(a, _mm256_loadu_si256((__m256i *)idx), _mm256_loadu_si256((__m256i *)val)); else simd::scatter(a, _mm_loadu_si128((__m128i *)idx), _mm_loadu_si128((__m128i *)val));
	int ok = 1; for (size_t j = 0; j < N + 4; j++) { T want = was[j]; for (size_t i = 0; i < lanes; i++) { T hit = (T)(0u - (uint32_t)(idx[i] == j)); want = (T)((want & (T)~hit) | ((T)val[i] & hit)); } ok &= a[j] == want; }
	sym_check(ok, "scatter writes exactly the indexed elements"); sym_out(a[0]); sym_out(a[N - 1]); sym_reach("scatter");
}
extern "C" void scatter_harness(void) { int wide = (int)sym_choose(3, "wide"); switch (sym_choose(3, "t")) { case 0: scatter<uint8_t>(wide); break; case 1: scatter<uint16_t>(wide); break; default: scatter<uint32_t>(wide); } }
