// Native replay runtime: reads the inputs recorded by the symbolic executor, re-checks every assertion on the real build.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
static FILE *in; static FILE *outf; static std::map<std::string, std::string> args;
#ifdef SYM_SCHED
uint64_t sym_next(unsigned w, const char *given); extern int sym_preempt;
static uint64_t next(unsigned w, const char *given) { return sym_next(w, given); }
uint64_t sym_next(unsigned w, const char *given) {
#else
static uint64_t next(unsigned w, const char *given) {
#endif
	char name[256]; size_t k = 0; for (; given[k] && k < 255; k++) name[k] = given[k] == ' ' ? '_' : given[k]; name[k] = 0;
	char line[512], nm[256]; unsigned ww; unsigned long long v;
	for (;;) {
		if (!in || !fgets(line, sizeof line, in)) { fflush(stdout); fprintf(stderr, "DIVERGED: inputs exhausted at %s\n", name); _exit(3); }
		if (line[0] == '#') continue;
		if (sscanf(line, "in %255s %u %llx", nm, &ww, &v) == 3) break;
		fprintf(stderr, "DIVERGED: inputs exhausted at %s\n", name); _exit(3);
	}
#ifndef SYM_SCHED
	if (!strcmp(nm, "sched")) return next(w, name);
#endif
	if (strcmp(nm, name)) { fprintf(stderr, "DIVERGED: expected %s, recorded %s\n", name, nm); _exit(3); }
	return v;
}
extern "C" {
void sym_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = next(8, name); }
uint8_t sym_u8(const char *name) { return next(8, name); }
uint16_t sym_u16(const char *name) { return next(16, name); }
uint32_t sym_u32(const char *name) { return next(32, name); }
uint64_t sym_u64(const char *name) { return next(64, name); }
int sym_bool(const char *name) { return next(1, name); }
uint64_t sym_range(uint64_t, uint64_t, const char *name) { return next(64, name); }
uint64_t sym_choose(uint64_t, const char *name) { return next(64, name); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_assume(int c) { if (!c) { fprintf(stderr, "ASSUME-FALSE\n"); _exit(4); } }
void sym_check(int c, const char *tag) { if (!c) { fprintf(stderr, "CHECK-FAILED %s\n", tag); fflush(stderr); _exit(42); } }
void sym_fail(const char *tag) { sym_check(0, tag); }
void sym_reach(const char *) {}
void sym_out(uint64_t v) { if (outf) { fprintf(outf, "out %llx\n", (unsigned long long)v); fflush(outf); } }
uint64_t sym_arg(const char *name, uint64_t d) { auto it = args.find(name); return it == args.end() ? d : strtoull(it->second.c_str(), 0, 0); }
void sym_stop(void) { if (outf) { fprintf(outf, "done\n"); fflush(outf); } _exit(0); }
void sym_kill(void) { _exit(4); }
void sym_print(const char *n, uint64_t v) { fprintf(stderr, "[print] %s=%llu\n", n, (unsigned long long)v); }
int sym_is_symbolic(uint64_t) { return 0; }
void SYM_ENTRY(void);
}
int main(int argc, char **argv) {
	in = fopen(argv[1], "r"); outf = strcmp(argv[2], "-") ? fopen(argv[2], "w") : NULL;
	for (int i = 3; i < argc; i++) { std::string kv = argv[i]; size_t p = kv.find('='); if (p != std::string::npos) args[kv.substr(0, p)] = kv.substr(p + 1); }
#ifdef SYM_SCHED
	if (args.count("__preempt")) sym_preempt = atoi(args["__preempt"].c_str());
#endif
	if (!in) return 5;
	SYM_ENTRY(); if (outf) { fprintf(outf, "done\n"); fclose(outf); outf = NULL; } fprintf(stderr, "COMPLETED\n"); fflush(stderr); _exit(0);
}

// objects of hundreds of megabytes (query and everything derived from it): fresh zero pages instead of a fill by MALLOC_PERTURB_
#if !defined(__SANITIZE_ADDRESS__) && !defined(SYM_SCHED)
#include <sys/mman.h>
#include <new>
static struct { void *p; size_t n; } huge[64];
void *operator new(size_t n) {
	if (n >= (32u << 20)) for (auto &h : huge) if (!h.p) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) break; h.p = p; h.n = n; return p; }
	void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void operator delete(void *p) noexcept { if (p) for (auto &h : huge) if (h.p == p) { munmap(p, h.n); h.p = nullptr; return; } free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void *operator new(size_t n, std::align_val_t a) {
	if (n >= (32u << 20) && (size_t)a <= 4096) return operator new(n);
	void *p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); if (!p) throw std::bad_alloc(); return p;
}
void operator delete(void *p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { operator delete(p); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
#endif
