// C25: maths.h against independent definitions
#include "sym.h"
#include <math.h>
#include "maths.h"
using JASS::maths;
template <typename T> static void logs(T x, int bits) {
	uint64_t v = (uint64_t)x; sym_assume(v != 0);
	uint64_t f = (uint64_t)maths::floor_log2<T>(x); sym_out(f);
	sym_check(f < (uint64_t)bits, "floor_log2 in range");
	sym_check((v >> (f & 63)) == 1, "floor_log2: 2^f <= x < 2^(f+1)");
}
template <typename T> static void clogs(T x, int bits) {
	uint64_t v = (uint64_t)x; sym_assume(v != 0);
	uint64_t c = (uint64_t)maths::ceiling_log2<T>(x); sym_out(c);
	// the library's documented use: number of bits needed to represent x
	sym_check(c >= 1 && c <= (uint64_t)bits, "ceiling_log2 in range");
	sym_check((v >> ((c - 1) & 63)) == 1, "ceiling_log2: number of bits needed for x");
}
extern "C" void log_harness(void) {
	switch (sym_choose(4, "w")) {
	case 0: { uint32_t x = sym_u32("x"); logs<uint32_t>(x, 32); } break;
	case 1: { uint64_t x = sym_u64("x"); logs<uint64_t>(x, 64); } break;
	case 2: { uint32_t x = sym_u32("x"); clogs<uint32_t>(x, 32); } break;
	case 3: { uint64_t x = sym_u64("x"); clogs<uint64_t>(x, 64); } break;
	}
	sym_reach("logs");
}
extern "C" void ffs_harness(void) {
	if (sym_choose(2, "w") == 0) { uint32_t x = sym_u32("x"); sym_assume(x != 0); uint32_t r = maths::find_first_set_bit(x); sym_out(r); sym_check(r < 32 && ((x >> r) & 1) && !(x & (((uint32_t)1 << r) - 1)), "find_first_set_bit 32"); }
	else { uint64_t x = sym_u64("x"); sym_assume(x != 0); uint32_t r = maths::find_first_set_bit(x); sym_out(r); sym_check(r < 64, "find_first_set_bit 64 range"); sym_check(((x >> r) & 1) && !(x & (((uint64_t)1 << r) - 1)), "find_first_set_bit 64"); }
	sym_reach("ffs");
}
template <typename T> static void minmax(T a, T b, T c) {
	T mx = maths::maximum(a, b), mn = maths::minimum(a, b), mx3 = maths::maximum(a, b, c), mn3 = maths::minimum(a, b, c); sym_out((uint64_t)mx3); sym_out((uint64_t)mn3);
	sym_check(both(both(mx >= a, mx >= b), either(mx == a, mx == b)), "maximum of 2"); sym_check(both(both(mn <= a, mn <= b), either(mn == a, mn == b)), "minimum of 2");
	sym_check(both(both(mx3 >= a, both(mx3 >= b, mx3 >= c)), either(mx3 == a, either(mx3 == b, mx3 == c))), "maximum of 3");
	sym_check(both(both(mn3 <= a, both(mn3 <= b, mn3 <= c)), either(mn3 == a, either(mn3 == b, mn3 == c))), "minimum of 3");
}
extern "C" void minmax_harness(void) {
	switch (sym_choose(3, "type")) {
	case 0: { uint32_t a = sym_u32("a"), b = sym_u32("b"), c = sym_u32("c"); minmax<uint32_t>(a, b, c); break; }
	case 1: { int64_t a = (int64_t)sym_u64("a"), b = (int64_t)sym_u64("b"), c = (int64_t)sym_u64("c"); minmax<int64_t>(a, b, c); break; }
	case 2: { uint8_t a = sym_u8("a"), b = sym_u8("b"), c = sym_u8("c"); minmax<uint8_t>(a, b, c); break; }
	}
	sym_reach("minmax");
}
extern "C" void sqrt_harness(void) {
	uint64_t n = sym_arg("bits", 12); uint32_t x = sym_u32("x"); sym_assume(x < (1u << n));
	uint32_t r = maths::sqrt_compiletime<uint32_t>(x); sym_out(r);
	sym_check(both((uint64_t)r * r <= x, (uint64_t)(r + 1) * (r + 1) > x), "integer square root"); sym_reach("sqrt");
}
