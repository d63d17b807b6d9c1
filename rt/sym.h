// Harness API. In the symbolic build these are intrinsics of the executor; in the native build (replay) they read the
// recorded inputs in order.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
	void sym_bytes(void *p, size_t n, const char *name);          // n fresh arbitrary bytes
	uint8_t sym_u8(const char *name);
	uint16_t sym_u16(const char *name);
	uint32_t sym_u32(const char *name);
	uint64_t sym_u64(const char *name);
	int sym_bool(const char *name);
	uint64_t sym_range(uint64_t lo, uint64_t hi, const char *name); // arbitrary value in [lo,hi], stays symbolic
	uint64_t sym_choose(uint64_t n, const char *name);            // arbitrary value in [0,n), one path per value
	uint64_t sym_concretize(uint64_t v);
	void sym_assume(int c);
	void sym_check(int c, const char *tag);
	void sym_fail(const char *tag);
	void sym_reach(const char *tag);
	void sym_out(uint64_t v);                                     // an observed output, compared with the native run
	uint64_t sym_arg(const char *name, uint64_t dflt);            // bound chosen by the driver
	void sym_stop(void);                                          // end this path here (counts as completed)
	void sym_kill(void);                                          // end this path here (assumed away)
	void sym_print(const char *name, uint64_t v);
	int sym_is_symbolic(uint64_t v);
}
// comparisons that do not short-circuit (no forking)
static inline int both(int a, int b) { return (a != 0) & (b != 0); }
static inline int either(int a, int b) { return (a != 0) | (b != 0); }
