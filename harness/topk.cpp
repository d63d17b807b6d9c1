// C05: heap, beap, top_k_heap, top_k_qsort keep exactly the k largest (or put the k smallest in front), in order
#include "sym.h"
#include <vector>
#include <sstream>
#include "heap.h"
#include "beap.h"
#include "top_k_heap.h"
#include "top_k_qsort.h"
using namespace JASS;
// the two arrays hold the same values the same number of times
template <typename T> static void permutation(const T *a, const T *b, size_t n, const char *tag) {
	int ok = 1; for (size_t i = 0; i < n; i++) { int x = 0, y = 0; for (size_t j = 0; j < n; j++) { x += a[j] == a[i]; y += b[j] == a[i]; } ok &= x == y; } sym_check(ok, tag); }
// kept holds the k largest of the n values in all, each as often as it should
template <typename T> static void largest(const T *kept, size_t k, const T *all, size_t n, const char *tag) {
	int ok = 1; for (size_t i = 0; i < k; i++) { int in_kept = 0, in_all = 0, above = 0; for (size_t j = 0; j < k; j++) in_kept += kept[j] == kept[i]; for (size_t j = 0; j < n; j++) { in_all += all[j] == kept[i]; above += all[j] > kept[i]; } int room = (int)k - above; int want = in_all < room ? in_all : room; ok &= both(in_all > 0, in_kept == want); } sym_check(ok, tag); }
static void isheap(const uint32_t *a, size_t n, const char *tag) { int ok = 1; for (size_t i = 1; i < n; i++) ok &= a[(i - 1) / 2] <= a[i]; sym_check(ok, tag); }
extern "C" void heap_harness(void) {
	size_t n = 1 + sym_choose(sym_arg("n", 7), "n"), steps = sym_arg("steps", 1); std::vector<uint32_t> a(n), was(n);
	for (size_t i = 0; i < n; i++) a[i] = was[i] = sym_range(0, 15, "v");
	heap<uint32_t> h(a.data(), n); h.make_heap(); isheap(a.data(), n, "make_heap makes a heap"); permutation(a.data(), was.data(), n, "make_heap keeps the values");
	for (size_t s = 0; s < steps; s++) {
		switch (sym_choose(3, "op")) {
		case 0: { was = a; uint32_t v = sym_range(0, 15, "new"); sym_assume(v >= a[0]); h.push_back(v); was[0] = v; isheap(a.data(), n, "push_back keeps the heap"); permutation(a.data(), was.data(), n, "push_back replaces the smallest"); } break;
		case 1: { size_t p = sym_choose(n, "p"); was = a; uint32_t v = sym_range(0, 15, "new"); sym_assume(v >= a[p]); h.promote(v, p); was[p] = v; isheap(a.data(), n, "promote keeps the heap"); permutation(a.data(), was.data(), n, "promote replaces one value"); } break;
		case 2: { uint32_t v = sym_range(0, 15, "key"); int64_t at = h.find(v); int there = 0; for (size_t i = 0; i < n; i++) there |= a[i] == v; if (at < 0) sym_check(!there, "find misses only absent values"); else sym_check(at < (int64_t)n && a[at] == v, "find finds the value"); } break;
		}
	}
	sym_out(a[0]); sym_reach("heap");
}
// every history of n values pushed through a heap of size k keeps the k largest
extern "C" void stream_harness(void) {
	size_t k = 1 + sym_choose(sym_arg("k", 4), "k"), n = sym_arg("n", 6); std::vector<uint32_t> a(k), all;
	for (size_t i = 0; i < k; i++) { a[i] = sym_range(0, 15, "v"); all.push_back(a[i]); }
	heap<uint32_t> h(a.data(), k); h.make_heap();
	for (size_t i = k; i < n; i++) { uint32_t v = sym_range(0, 15, "v"); all.push_back(v); if (v > a[0]) h.push_back(v); }
	largest(a.data(), k, all.data(), all.size(), "the heap holds the k largest"); sym_reach("stream");
}
static void isbeap(const uint32_t *a, size_t n, const char *tag) { int ok = 1; size_t row = 0, start = 0; for (size_t i = 0; i < n; i++) { if (i == start + row + 1) { start = i; row++; } size_t l = i + row + 1, r = i + row + 2; if (l < n) ok &= a[i] <= a[l]; if (r < n) ok &= a[i] <= a[r]; } sym_check(ok, tag); }
extern "C" void beap_harness(void) {
	size_t n = 1 + sym_choose(sym_arg("n", 7), "n"), steps = sym_arg("steps", 1); std::vector<uint32_t> a(n), was(n);
	// any beap
	for (size_t i = 0; i < n; i++) a[i] = sym_range(0, 15, "v");
	{ size_t row = 0, start = 0; int ok = 1; for (size_t i = 0; i < n; i++) { if (i == start + row + 1) { start = i; row++; } size_t l = i + row + 1, r = i + row + 2; if (l < n) ok &= a[i] <= a[l]; if (r < n) ok &= a[i] <= a[r]; } sym_assume(ok); }
	beap<uint32_t> b(a.data(), n); sym_check(b.isbeap(), "isbeap accepts every beap");
	for (size_t s = 0; s < steps; s++) {
		was = a;
		switch (sym_choose(4, "op")) {
		case 0: { uint32_t v = sym_range(0, 15, "key"); int64_t at = b.find(v); int there = 0; for (size_t i = 0; i < n; i++) there |= a[i] == v; if (at < 0) sym_check(!there, "find misses only absent values"); else sym_check(at < (int64_t)n && a[at] == v, "find finds the value"); } break;
		case 1: { uint32_t v = sym_range(0, 15, "new"); sym_assume(v >= a[0]); int64_t at = b.replace_smallest_with(v); was[0] = v; sym_check(at >= 0 && at < (int64_t)n && a[at] == v, "replace_smallest_with returns where the value is"); } break;
		case 2: { size_t p = sym_choose(n, "p"); uint32_t o = a[p], v = sym_range(0, 15, "new"); sym_assume(v != o); int64_t at = b.replace(o, v); was[p] = v; sym_check(at >= 0 && at < (int64_t)n && a[at] == v, "replace returns where the value is"); } break;
		case 3: { uint32_t o = sym_range(0, 15, "old"), v = sym_range(0, 15, "new"); int there = 0; for (size_t i = 0; i < n; i++) there |= a[i] == o; sym_assume(!there); sym_check(b.replace(o, v) == -1, "replacing an absent value does nothing"); } break;
		}
		isbeap(a.data(), n, "the beap order is kept"); permutation(a.data(), was.data(), n, "exactly one value is replaced");
	}
	sym_reach("beap");
}
extern "C" void make_beap_harness(void) { size_t n = 1 + sym_choose(sym_arg("n", 5), "n"); std::vector<uint32_t> a(n), was(n); for (size_t i = 0; i < n; i++) a[i] = was[i] = sym_range(0, 15, "v"); beap<uint32_t> b(a.data(), n); b.make_beap(); isbeap(a.data(), n, "make_beap makes a beap"); permutation(a.data(), was.data(), n, "make_beap keeps the values"); sym_reach("beap"); }
extern "C" void topkheap_harness(void) {
	size_t k = 1 + sym_choose(sym_arg("k", 3), "k"), n = sym_choose(sym_arg("n", 5) + 1, "n"); allocator_pool pool(65536); top_k_heap<uint32_t> h(k, pool); std::vector<uint32_t> all;
	for (size_t i = 0; i < n; i++) { uint32_t v = sym_range(0, 15, "v"); h.push_back(v); all.push_back(v); if (h.size() == k) { uint32_t f = h.front(); int above = 0, in = 0, bel = 0; for (auto x : all) { above += x > f; in += x == f; bel += x >= f; } sym_check(above < (int)k && bel >= (int)k && in, "front is the k-th largest"); } }
	size_t m = n < k ? n : k; sym_check(h.size() == m, "holds min(n,k) values"); sym_check(h.capacity() == k, "capacity");
	std::vector<uint32_t> got(h.begin(), h.end()); largest(got.data(), got.size(), all.data(), n, "holds the k largest");
	h.sort(); std::vector<uint32_t> srt(h.begin(), h.end()); sym_check(srt.size() == m, "sort keeps the size"); int ok = 1; for (size_t i = 1; i < srt.size(); i++) ok &= srt[i - 1] >= srt[i]; sym_check(ok, "sort puts them in decreasing order"); permutation(srt.data(), got.data(), m, "sort keeps the values");
	sym_reach("topkheap");
}
extern "C" void qsort_harness(void) {
	size_t lo = sym_arg("lo", 0), n = lo + sym_choose(sym_arg("n", 6) + 1, "n"), k = sym_choose(n + 1, "k"); std::vector<uint32_t> a(n), was(n); size_t every = sym_arg("every", 1); for (size_t i = 0; i < n; i++) a[i] = was[i] = i % every == every / 2 ? (uint32_t)sym_range(0, (1u << sym_arg("bits", 4)) - 1, "v") : (uint32_t)((i * 7 + (i >> 3)) % 16);
	top_k_qsort::sort(a.data(), n, k);
	permutation(a.data(), was.data(), n, "sort keeps the values"); int ok = 1; for (size_t i = 0; i < k && i < n; i++) for (size_t j = i + 1; j < n; j++) ok &= a[i] <= a[j]; sym_check(ok, "the first k are the k smallest in order");
	if (n) sym_out(a[0]); sym_reach("qsort");
}
