// C04: accumulator tables against an array that is cleared by rewind
#include "sym.h"
#include <new>
#include <vector>
#include "accumulator_2d.h"
#include "accumulator_counter.h"
#include "accumulator_counter_interleaved.h"
using namespace JASS;
template <typename A, typename T> struct table {
	A *a; std::vector<T> m; size_t n;
	table(size_t n, size_t w) : m(n, 0), n(n) { void *p = ::operator new(sizeof(A), std::align_val_t(64)); for (size_t i = 0; i < sizeof(A); i++) ((uint8_t *)p)[i] = 0xA7; a = new (p) A; a->init(n, w); }
	void same(const char *tag) { int ok = 1; for (size_t i = 0; i < n; i++) ok &= a->get_value(i) == m[i]; sym_check(ok, tag); }
	void rewind() { a->rewind(); m.assign(n, 0); }
	void write(size_t p, T v) { T &r = (*a)[p]; sym_check(r == m[p], "operator[] reads the current value"); r += v; m[p] += v; sym_check(a->get_index(&r) == p, "get_index is the inverse of operator[]"); sym_check((*a)[p] == m[p], "operator[] reads back what was written"); }
};
template <typename A, typename T> static void history(size_t n, size_t w) {
	table<A, T> t(n, w); size_t steps = sym_arg("steps", 3); size_t pre = sym_choose(3, "pre"); // rewinds before: 0, to just below the wrap of the counter, past it
	sym_check(t.a->size() == n, "size"); t.same("zero after init");
	if (pre) { size_t p0 = sym_choose(n, "p0"); t.write(p0, (T)(sym_u8("v0") | 1)); size_t many = sym_arg("wrap", 15); t.rewind(); for (size_t i = 1; i < many + pre - 2; i++) t.rewind(); t.same("zero after rewind"); }
	for (size_t s = 0; s < steps; s++) {
		size_t op = sym_choose(n + 1, "op");
		if (op == n) t.rewind(); else t.write(op, (T)sym_u8("v"));
		t.same("every accumulator holds what was last written");
	}
	sym_reach("history");
}
extern "C" void d2_harness(void) { size_t n = 1 + sym_choose(sym_arg("n", 6), "n"), w = sym_choose(4, "w"); if (sym_choose(2, "t")) history<accumulator_2d<uint16_t, 64>, uint16_t>(n, w); else history<accumulator_2d<uint8_t, 64>, uint8_t>(n, w); }
extern "C" void c8_harness(void) { size_t n = 1 + sym_choose(sym_arg("n", 5), "n"); if (sym_choose(2, "t")) history<accumulator_counter<uint16_t, 32, 8>, uint16_t>(n, 0); else history<accumulator_counter<uint8_t, 32, 8>, uint8_t>(n, 0); }
extern "C" void c4_harness(void) { size_t n = 1 + sym_choose(sym_arg("n", 5), "n"); if (sym_choose(2, "t")) history<accumulator_counter<uint16_t, 32, 4>, uint16_t>(n, 0); else history<accumulator_counter<uint8_t, 32, 4>, uint8_t>(n, 0); }
extern "C" void i8_harness(void) { size_t n = 1 + sym_choose(sym_arg("n", 5), "n"); switch (sym_choose(3, "t")) { case 0: history<accumulator_counter_interleaved<uint16_t, 32, 8, 3>, uint16_t>(n, 0); break; case 1: history<accumulator_counter_interleaved<uint8_t, 32, 8, 4>, uint8_t>(n, 0); break; default: history<accumulator_counter_interleaved<uint16_t, 32, 8>, uint16_t>(n + 19, 0); } }
extern "C" void i4_harness(void) { size_t n = 1 + sym_choose(sym_arg("n", 5), "n"); switch (sym_choose(3, "t")) { case 0: history<accumulator_counter_interleaved<uint16_t, 32, 4, 3>, uint16_t>(n, 0); break; case 1: history<accumulator_counter_interleaved<uint8_t, 32, 4, 4>, uint8_t>(n, 0); break; default: history<accumulator_counter_interleaved<uint8_t, 32, 4>, uint8_t>(n + 23, 0); } }
// the vector access of accumulator_2d: 8 or 16 symbolic positions at once, from any dirty state
template <typename T> static void vec(int wide) {
	size_t n = sym_arg("n", 16), w = 1 + sym_choose(3, "w"); table<accumulator_2d<T, 64>, T> t(n, w); 
	for (size_t k = sym_choose(sym_arg("writes", 2) + 1, "writes"); k; k--) { size_t p = sym_choose(n, "p"); t.write(p, (T)sym_u8("v")); }
	uint32_t idx[16], got[16]; size_t lanes = wide ? 16 : 8; size_t fr = sym_arg("free", 2); size_t base = sym_choose(n, "base"), stride = sym_choose(3, "stride");
	for (size_t i = 0; i < lanes; i++) idx[i] = (uint32_t)((base + i * stride) % n); for (size_t i = 0; i < fr; i++) { size_t l = i * (lanes - 1) / (fr > 1 ? fr - 1 : 1); idx[l] = (uint32_t)sym_range(0, n - 1, "i"); }
	if (wide) { __m512i r = (*t.a)[_mm512_loadu_si512(idx)]; _mm512_storeu_si512(got, r); } else { __m256i r = (*t.a)[_mm256_loadu_si256((__m256i *)idx)]; _mm256_storeu_si256((__m256i *)got, r); }
	int ok = 1; for (size_t i = 0; i < lanes; i++) { uint32_t want = 0; for (size_t j = 0; j < n; j++) want = idx[i] == j ? (uint32_t)t.m[j] : want; ok &= got[i] == want; }
	sym_check(ok, "vector operator[] reads the current values"); t.same("vector access changes nothing"); sym_reach("vector");
}
extern "C" void vec_harness(void) { int wide = (int)sym_choose(2, "wide"); if (sym_choose(2, "t")) vec<uint16_t>(wide); else vec<uint8_t>(wide); }
