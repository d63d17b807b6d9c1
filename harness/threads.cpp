// C11: containers shared between threads lose nothing, under every interleaving of their synchronisation operations
#include "sym.h"
#include <string.h>
#include <string>
#include <vector>
#include <functional>
#include "allocator_pool.h"
#include "slice.h"
#include "dynamic_array.h"
#include "binary_tree.h"
#include "hash_table.h"
#include "threads.h"
#include "JASS_anytime_query.h"
using namespace JASS;
static const size_t MAXT = 3;
template <typename F> static void in_parallel(size_t threads, F work) {
	std::vector<thread> pool; pool.reserve(threads);
	for (size_t t = 0; t < threads; t++) pool.emplace_back(work, t);
	for (auto &t : pool) t.join();
}
// every element pushed by any thread is there exactly once
extern "C" void array_harness(void) {
	size_t threads = sym_arg("threads", 2), each = sym_arg("each", 2), initial = 1 + sym_choose(sym_arg("sizes", 2), "size"), total = threads * each;
	allocator_pool &memory = *new allocator_pool(sym_arg("block", 4096)); dynamic_array<uint32_t> &array = *new dynamic_array<uint32_t>(memory, initial, 1.5);
	uint32_t *value = new uint32_t[total]; for (size_t i = 0; i < total; i++) value[i] = (uint32_t)i << 16 | sym_u16("value");
	in_parallel(threads, [&, each](size_t t) { for (size_t i = 0; i < each; i++) array.push_back(value[t * each + i]); });
	size_t n = 0, seen[16] = {0}; int own = 1, order = 1; uint32_t last[MAXT] = {0};
	for (auto &v : array) { if (n++ >= total) break; size_t i = v >> 16; own &= i < total; if (i >= total) break; seen[i]++; own &= value[i] == v; size_t t = i / each; order &= i >= last[t]; last[t] = i; }
	sym_check(n == total, "as many elements as insertions"); sym_check(own, "every element keeps its value"); sym_check(order, "one thread's insertions stay in order");
	for (size_t i = 0; i < total; i++) sym_check(seen[i] == 1, "every insertion is visible exactly once");
	sym_check(array.serialise(nullptr, 0) == total, "the array counts its elements"); uint32_t *flat = new uint32_t[total]; array.serialise(flat, total); n = 0; int same = 1; for (auto &v : array) { same &= flat[n] == v; same &= array[n] == v; n++; } sym_check(same, "every way of reading sees the same elements"); sym_check(array.back() == flat[total - 1], "the last element is the last");
	for (size_t i = 0; i < total; i++) sym_out(flat[i]); sym_reach("filled");
}
class payload { public: uint32_t value; payload(allocator &) : value(0) {} };
template <typename MAP> static void map_history(MAP &map) {
	size_t threads = sym_arg("threads", 2), each = sym_arg("each", 2), total = threads * each; static const char *names[] = {"b", "a", "c", "d"}; size_t *key = new size_t[total]; payload **where = new payload *[total];
	key[0] = 0; for (size_t i = 1; i < total; i++) key[i] = sym_choose(sym_arg("keys", 2), "key");
	in_parallel(threads, [&, each](size_t t) { for (size_t i = t * each; i < (t + 1) * each; i++) where[i] = &map[slice(names[key[i]])]; });
	for (size_t i = 0; i < total; i++) for (size_t j = 0; j < i; j++) sym_check((key[i] == key[j]) == (where[i] == where[j]), "one element per key, whichever thread asks");
	for (size_t i = 0; i < total; i++) where[i]->value = 1 + key[i];
	size_t distinct = 0, n = 0; for (size_t i = 0; i < total; i++) { size_t j = 0; while (key[j] != key[i]) j++; distinct += j == i; }
	for (const auto &[k, v] : map) { if (n++ >= total) break; sym_check(k.size() == 1 && v.value && v.value <= 4 && k[0] == names[v.value - 1][0], "an element is listed under its own key"); sym_out(k[0]); }
	sym_check(n == distinct, "every key is listed exactly once"); for (size_t i = 0; i < total; i++) sym_check(&map[slice(names[key[i]])] == where[i], "a key still finds its element"); sym_reach("mapped");
}
extern "C" void tree_harness(void) { allocator_pool &memory = *new allocator_pool(sym_arg("block", 4096)); map_history(*new binary_tree<slice, payload>(memory)); }
extern "C" void hash_harness(void) { allocator_pool &memory = *new allocator_pool(sym_arg("block", 8192)); map_history(*new hash_table<slice, payload, 8>(memory)); }
// blocks handed to different threads never overlap, and are aligned and usable
extern "C" void pool_harness(void) {
	size_t threads = sym_arg("threads", 2), each = sym_arg("each", 2), total = threads * each; allocator_pool &memory = *new allocator_pool(sym_arg("block", 24)); size_t *size = new size_t[total]; uint8_t **block = new uint8_t *[total];
	static const size_t sizes[] = {8, 17, 40}; size_t sum = 0; for (size_t i = 0; i < total; i++) sum += size[i] = sizes[sym_choose(sym_arg("kinds", 2), "size")];
	in_parallel(threads, [&, each](size_t t) { for (size_t i = t * each; i < (t + 1) * each; i++) { block[i] = (uint8_t *)memory.malloc(size[i], 8); memset(block[i], (int)i + 1, size[i]); } });
	for (size_t i = 0; i < total; i++) { sym_check(block[i] != nullptr && (size_t)block[i] % 8 == 0, "blocks are aligned"); int kept = 1; for (size_t b = 0; b < size[i]; b++) kept &= block[i][b] == i + 1; sym_check(kept, "no two threads share a block"); }
	sym_check(memory.size() == sum, "the pool counts what it handed out"); memory.rewind(); sym_check(memory.size() == 0, "rewinding empties the pool"); sym_reach("allocated");
}
// every query is taken by exactly one thread, and all are taken
extern "C" void queries_harness(void) {
	size_t threads = sym_arg("threads", 2), n = sym_arg("n", 3); std::vector<JASS_anytime_query> &list = *new std::vector<JASS_anytime_query>; list.reserve(n); for (size_t i = 0; i < n; i++) list.push_back(JASS_anytime_query(std::string(1, (char)('a' + i))));
	static size_t taken[MAXT][8], order[MAXT]; for (size_t t = 0; t < MAXT; t++) { order[t] = 1; for (size_t i = 0; i < 8; i++) taken[t][i] = 0; }
	in_parallel(threads, [&](size_t t) { size_t next = 0; int last = -1; for (;;) { std::string q = JASS_anytime_query::get_next_query(list, next); if (q.size() == 0) break; if (q.size() != 1 || q[0] < 'a' || (size_t)(q[0] - 'a') >= n) { order[t] = 0; break; } taken[t][q[0] - 'a']++; order[t] &= q[0] - 'a' > last; last = q[0] - 'a'; } });
	for (size_t i = 0; i < n; i++) { size_t k = 0; for (size_t t = 0; t < threads; t++) k += taken[t][i]; sym_check(k == 1, "each query is taken by exactly one thread"); }
	for (size_t t = 0; t < threads; t++) sym_check(order[t], "queries are taken whole and in order"); sym_reach("answered");
}
