// C12: allocators hand out aligned, disjoint, usable memory and account for it
#include "sym.h"
#include <vector>
#include "allocator_pool.h"
#include "allocator_memory.h"
using namespace JASS;
struct block { uint8_t *p; uint64_t n; uint8_t tag; };
static void fresh(const std::vector<block> &was, const block &b, size_t align) {
	sym_check(((uintptr_t)b.p & (align - 1)) == 0, "allocations are aligned as asked");
	int ok = 1; for (auto &o : was) ok &= either(either(o.n == 0, b.n == 0), either((uintptr_t)o.p + o.n <= (uintptr_t)b.p, (uintptr_t)b.p + b.n <= (uintptr_t)o.p));
	sym_check(ok, "allocations do not overlap");
}
static void fill(block &b) { if (b.n) { b.p[0] = b.tag; b.p[b.n - 1] = b.tag; } }
static void intact(const std::vector<block> &bs) { for (auto &b : bs) if (b.n) sym_check(both(b.p[0] == b.tag, b.p[b.n - 1] == b.tag), "live allocations keep their contents"); }
static size_t alignment(void) { static const size_t a[] = {1, 8, 64, 4, 16, 2}; return a[sym_choose(sym_arg("aligns", 3), "align")]; }
extern "C" void pool_harness(void) {
	size_t n = sym_arg("n", 3), bs = sym_arg("block", 48); allocator_pool pool(bs); std::vector<block> got; uint64_t total = 0;
	size_t cut = sym_choose(n, "rewind_before");
	for (size_t i = 0; i < n; i++) {
		if (i == cut && i) { pool.rewind(); got.clear(); total = 0; sym_check(pool.size() == 0 && pool.capacity() == 0, "rewind gives everything back"); }
		size_t al = alignment(); block b; b.tag = 0x11 * (i + 1);
		switch (sym_choose(3, "size")) { case 0: b.n = bs; break; case 1: b.n = bs + 1 + sym_choose(2, "over") * 100; break; default: b.n = sym_range(0, bs - 1, "bytes"); }
		b.p = (uint8_t *)pool.malloc(b.n, al); sym_check(b.p != nullptr, "an allocation succeeds");
		fresh(got, b, al); fill(b); got.push_back(b); total += b.n;
		sym_check(pool.size() == total, "size() is the number of bytes handed out"); sym_check(pool.capacity() >= pool.size(), "capacity() covers size()");
	}
	intact(got); sym_out(pool.size()); sym_reach("pool");
}
extern "C" void memory_harness(void) {
	size_t n = sym_arg("n", 3), cap = sym_arg("cap", 100); alignas(64) static uint8_t space[256]; allocator_memory pool(space, cap); std::vector<block> got; sym_check(pool.capacity() == cap && pool.size() == 0, "capacity() is the buffer");
	for (size_t i = 0; i < n; i++) {
		size_t al = alignment(); block b; b.tag = 0x11 * (i + 1); b.n = sym_range(0, sym_arg("most", 24), "bytes"); uint64_t at = pool.size(), need = (at + al - 1) / al * al + b.n;
		if (need > cap) sym_kill(); // out of memory is a documented exit
		b.p = (uint8_t *)pool.malloc(b.n, al); sym_check(b.p != nullptr, "an allocation that fits succeeds"); sym_check(b.p >= space && b.p + b.n <= space + cap, "allocations lie in the buffer");
		fresh(got, b, al); fill(b); got.push_back(b); sym_check(both(pool.size() >= at + b.n, pool.size() <= cap), "size() grows by at least what was asked");
	}
	intact(got); pool.rewind(); sym_check(pool.size() == 0, "rewind gives everything back"); sym_check(pool.malloc(1) == space, "the buffer is reused from the start after rewind"); sym_reach("memory");
}
