// Forced-schedule replay: the real code compiled with -fsanitize=thread instrumentation, linked against this runtime
// instead of ThreadSanitizer's. Threads take turns exactly as in the recorded schedule; unordered conflicting accesses
// (happens-before, vector clocks) are reported as data races.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <map>
#include <vector>
#include <string>
uint64_t sym_next(unsigned w, const char *given);
int sym_preempt = 2;
extern "C" int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern "C" int __real_pthread_join(pthread_t, void **);
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t *);
// memory is never reused, so that what is remembered of one object's accesses is not taken for another's
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; } void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *) noexcept {} void operator delete[](void *) noexcept {} void operator delete(void *, size_t) noexcept {} void operator delete[](void *, size_t) noexcept {}
extern "C" void __wrap_free(void *) {}
typedef std::vector<uint32_t> clk;
struct T { unsigned id; int state; uint64_t wait; bool yielded; clk vc; pthread_t handle; void *(*fn)(void *); void *arg, *ret; };
static T *th[8]; static unsigned nth; static T *cur; static thread_local T *me; static int used;
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t turn = PTHREAD_COND_INITIALIZER;
static std::map<void *, bool> &locks() { static auto *m = new std::map<void *, bool>; return *m; }
static std::map<uint64_t, clk> &sync_() { static auto *m = new std::map<uint64_t, clk>; return *m; }
static void setup() { if (!nth) { T *t = new T(); t->vc = {1}; th[nth++] = cur = me = t; } }
static void join(clk &a, const clk &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
static bool enabled(T *t) { return t->state == 0 || (t->state == 1 && th[t->wait]->state == 3) || (t->state == 2 && !locks()[(void *)t->wait]); }
static void await() { T *m = me; __real_pthread_mutex_lock(&big); while (*(T *volatile *)&cur != m) pthread_cond_wait(&turn, &big); __real_pthread_mutex_unlock(&big); }
static void give(T *t) { __real_pthread_mutex_lock(&big); t->state = 0; cur = t; pthread_cond_broadcast(&turn); __real_pthread_mutex_unlock(&big); }
static void pick_next() {
	T *r[8]; unsigned n = 0; for (unsigned i = 0; i < nth; i++) if (enabled(th[i])) r[n++] = th[i];
	if (!n) { fprintf(stderr, "DEADLOCK\n"); _exit(43); }
	give(r[n == 1 ? 0 : sym_next(8, "sched")]);
}
static void point() {
	if (nth < 2) return;
	T *m = me; if (m->yielded) { m->yielded = false; return; }
	if (used >= sym_preempt) return;
	T *r[8]; unsigned n = 0; r[n++] = m; for (unsigned i = 0; i < nth; i++) if (th[i] != m && enabled(th[i])) r[n++] = th[i];
	if (n == 1) return;
	uint64_t k = sym_next(8, "sched"); if (k == 0) return;
	m->yielded = true; used++; give(r[k]); await(); m->yielded = false;
}
struct S { uint32_t wclk = 0, wtid = 0, wat = 0; uint32_t r[8] = {0}; bool rat = false; };
static std::map<uint64_t, S> &shadow() { static auto *m = new std::map<uint64_t, S>; return *m; }
static void access(void *p, size_t n, bool write, bool atomic) {
	if (nth < 2 || !me) return;
	clk &v = me->vc; unsigned id = me->id; auto at = [&](unsigned t) { return t < v.size() ? v[t] : 0; };
	for (size_t i = 0; i < n; i++) {
		S &s = shadow()[(uint64_t)p + i]; bool race = s.wclk && s.wtid != id && s.wclk > at(s.wtid) && !(atomic && s.wat);
		if (write) for (unsigned t = 0; t < 8; t++) if (t != id && s.r[t] > at(t) && !(atomic && s.rat)) race = true;
		if (race) { fprintf(stderr, "DATA-RACE %s\n", write ? "write" : "read"); _exit(44); }
		if (write) { s.wclk = v[id]; s.wtid = id; s.wat = atomic; } else { s.r[id] = v[id]; s.rat = atomic; }
	}
}
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void acquire(void *a) { if (nth > 1) join(me->vc, sync_()[(uint64_t)a]); }
static void release(void *a) { if (nth > 1) { join(sync_()[(uint64_t)a], me->vc); me->vc[me->id]++; } }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define A(n, t) \
t __tsan_atomic##n##_load(const volatile t *a, int mo) { setup(); point(); access((void *)a, n / 8, false, true); t v = *a; if (acq(mo)) acquire((void *)a); return v; } \
void __tsan_atomic##n##_store(volatile t *a, t v, int mo) { setup(); point(); access((void *)a, n / 8, true, true); *a = v; if (rel(mo)) { if (nth > 1) sync_()[(uint64_t)a].clear(); release((void *)a); } } \
static t rmw##n(volatile t *a, int mo, t v, int op) { setup(); point(); access((void *)a, n / 8, true, true); if (acq(mo)) acquire((void *)a); if (rel(mo)) release((void *)a); t o = *a; *a = op == 0 ? v : op == 1 ? o + v : op == 2 ? o - v : op == 3 ? o & v : op == 4 ? o | v : op == 5 ? o ^ v : ~(o & v); return o; } \
t __tsan_atomic##n##_exchange(volatile t *a, t v, int mo) { return rmw##n(a, mo, v, 0); } t __tsan_atomic##n##_fetch_add(volatile t *a, t v, int mo) { return rmw##n(a, mo, v, 1); } t __tsan_atomic##n##_fetch_sub(volatile t *a, t v, int mo) { return rmw##n(a, mo, v, 2); } \
t __tsan_atomic##n##_fetch_and(volatile t *a, t v, int mo) { return rmw##n(a, mo, v, 3); } t __tsan_atomic##n##_fetch_or(volatile t *a, t v, int mo) { return rmw##n(a, mo, v, 4); } t __tsan_atomic##n##_fetch_xor(volatile t *a, t v, int mo) { return rmw##n(a, mo, v, 5); } \
t __tsan_atomic##n##_compare_exchange_val(volatile t *a, t c, t v, int mo, int fmo) { setup(); point(); t o = *a; bool ok = o == c; access((void *)a, n / 8, ok, true); if (acq(ok ? mo : fmo)) acquire((void *)a); if (ok && rel(mo)) release((void *)a); if (ok) *a = v; return o; } \
void __tsan_##n##unused() {}
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
#define M(n) void __tsan_read##n(void *p) { access(p, n, false, false); } void __tsan_write##n(void *p) { access(p, n, true, false); } void __tsan_unaligned_read##n(void *p) { access(p, n, false, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true, false); } void __tsan_read_write##n(void *p) { access(p, n, false, false); access(p, n, true, false); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, false, false); access(p, n, true, false); }
M(1) M(2) M(4) M(8) M(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, false); } void __tsan_write_range(void *p, size_t n) { access(p, n, true, false); }
void __tsan_vptr_update(void **p, void *v) { access(p, 8, true, false); } void __tsan_vptr_read(void **p) { access(p, 8, false, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((void *)s, n, false, false); access(d, n, true, false); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((void *)s, n, false, false); access(d, n, true, false); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true, false); return memset(d, c, n); }
static void *start(void *p) { me = (T *)p; await(); me->ret = me->fn(me->arg); me->state = 3; pick_next(); return nullptr; }
int __wrap_pthread_create(pthread_t *h, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
	setup(); point(); if (nth >= 8) abort();
	T *t = new T(); t->id = nth; t->fn = fn; t->arg = arg; t->vc = me->vc; t->vc.resize(t->id + 1); t->vc[t->id] = 1; if (me->vc.size() <= t->id) me->vc.resize(t->id + 1); me->vc[me->id]++;
	__real_pthread_create(&t->handle, nullptr, start, t); th[nth++] = t; *h = (pthread_t)(uint64_t)t->id; return 0;
}
int __wrap_pthread_join(pthread_t h, void **ret) {
	uint64_t id = (uint64_t)h; if (id >= nth) { fprintf(stderr, "CHECK-FAILED join of a bad thread\n"); _exit(42); }
	T *t = th[id]; while (t->state != 3) { me->state = 1; me->wait = id; T *m = me; pick_next(); (void)m; await(); }
	join(me->vc, t->vc); if (ret) *ret = t->ret; return 0;
}
int __wrap_pthread_detach(pthread_t) { return 0; }
pthread_t __wrap_pthread_self() { setup(); return me->id; }
int __wrap_sched_yield() { point(); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { setup(); for (;;) { point(); if (!locks()[m]) break; me->state = 2; me->wait = (uint64_t)m; pick_next(); await(); } locks()[m] = true; acquire(m); return 0; }
int __wrap___cxa_guard_acquire(char *g) { setup(); for (;;) { if (*g) { acquire(g); return 0; } if (!locks()[g + 1]) break; me->state = 2; me->wait = (uint64_t)(g + 1); pick_next(); await(); } locks()[g + 1] = true; acquire(g); return 1; }
void __wrap___cxa_guard_release(char *g) { *g = 1; locks()[g + 1] = false; release(g); }
void __wrap___cxa_guard_abort(char *g) { locks()[g + 1] = false; release(g); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { setup(); point(); if (locks()[m]) return 16; locks()[m] = true; acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { setup(); locks()[m] = false; release(m); return 0; }
}
