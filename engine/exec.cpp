// Symbolic executor for LLVM IR: path exploration by process forking, one z3 context per process.
#include "engine.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
using namespace llvm;

Shared *S; std::atomic<u8> *g_cov; std::atomic<u32> *g_forkAt; u32 g_nbb;
std::vector<Obj> g_objs; Thread *g_cur; std::vector<Thread *> g_threads; u64 g_icount, g_ilast; std::vector<V> g_outs;
std::map<std::string, std::string> g_args; Module *M; const DataLayout *DL; bool g_junk = true, g_verbose = false;
static std::string g_outdir = "."; static double g_deadline = 0, g_qtimeout = 60; static int g_ownToken = 1; static int g_mySlot = -1;
static int g_maxSamples = 24; static u64 g_maxInstr = 2000000000ULL; static int g_maxForkDepth = 100000;
static std::vector<std::string> g_fnOfBB; static int g_pathDepth = 0; static u64 g_sampleSeed = 1;
int g_preempt = 2, g_preemptUsed = 0; bool g_races = true;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------------------------------------ locations
static Instruction *curInst() {
	if (!g_cur || g_cur->frames.empty()) return nullptr; Frame &f = g_cur->frames.back();
	return f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr;
}
static std::string shortFile(StringRef s) { size_t p = s.find("/repo/"); if (p != StringRef::npos) return s.substr(p + 6).str(); return s.substr(s.rfind('/') + 1).str(); }
std::string curLoc() {
	// innermost frame with a /repo location, else the innermost with any location
	std::string any;
	if (!g_cur) return "?";
	for (size_t i = g_cur->frames.size(); i-- > 0;) {
		Frame &f = g_cur->frames[i]; if (f.pc >= f.f->code.size()) continue; Instruction *I = f.f->code[f.pc].I; if (!I) continue;
		for (const DILocation *L = I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
			std::string fn = (L->getDirectory() + "/" + L->getFilename()).str(); if (L->getFilename().starts_with("/")) fn = L->getFilename().str();
			char b[32]; snprintf(b, sizeof b, ":%u", L->getLine());
			std::string r = shortFile(fn) + b + " (" + (L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "") + ")";
			if (fn.find("/repo/") != std::string::npos) return r;
			if (any.empty()) any = r;
		}
	}
	return any.empty() ? "?" : any;
}
static std::string backtrace() {
	std::string r;
	for (size_t i = g_cur->frames.size(); i-- > 0;) {
		Frame &f = g_cur->frames[i]; Instruction *I = f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr;
		r += "  " + demangle(f.f->F->getName().str());
		if (I) for (const DILocation *L = I->getDebugLoc().get(); L; L = L->getInlinedAt()) { char b[300]; snprintf(b, sizeof b, " @%s:%u", shortFile(L->getFilename()).c_str(), L->getLine()); r += b; }
		r += "\n"; if (r.size() > 6000) break;
	}
	return r;
}

// ------------------------------------------------------------------------------------------------ path end
static void flushCounters() { S->instrs += g_icount - g_ilast; g_ilast = g_icount; }
static void writeInputs(FILE *f, const std::vector<u64> &model) {
	for (size_t i = 0; i < g_vars.size(); i++) fprintf(f, "in %s %u %llx\n", g_vars[i].name.c_str(), g_vars[i].w, (unsigned long long)model[i]);
}
[[noreturn]] void finishPath(int status) {
	flushCounters();
	if (status == 0) {
		u64 n = S->paths++;
		u64 h = (n + g_sampleSeed) * 0x9e3779b97f4a7c15ULL >> 40;
		if ((n < 8 || h % (n / 8 + 1) == 0) && S->samples.fetch_add(1) < (u64)g_maxSamples) {
			char nm[600]; snprintf(nm, sizeof nm, "%s/sample_%llu.txt", g_outdir.c_str(), (unsigned long long)n);
			FILE *f = fopen(nm, "w"); if (f) { writeInputs(f, g_model); fprintf(f, "end 0\n"); for (V &v : g_outs) fprintf(f, "out %llx\n", (unsigned long long)(v.e ? evalExpr(v.e) : v.c)); fclose(f); }
		}
	} else if (status == 1) S->infeasible++;
	else if (status == 2) S->incomplete++;
	u64 nv = g_vars.size(), o = S->maxvars; while (nv > o && !S->maxvars.compare_exchange_weak(o, nv)) ;
	S->ended++;
	if (g_mySlot >= 0) { u32 exp = 0; if (!S->slots[g_mySlot].compare_exchange_strong(exp, 2)) S->tokens++; }
	else S->tokens++;
	_exit(0);
}
[[noreturn]] void incompletePath(const std::string &why) {
	std::string m = why + " @ " + curLoc();
	u32 n = S->incKeys; bool dup = false;
	for (u32 i = 0; i < n && i < 64; i++) if (!strncmp(S->incMsg[i], m.c_str(), 255)) dup = true;
	if (!dup) { n = S->incKeys++; if (n < 64) snprintf(S->incMsg[n], 256, "%s", m.c_str()); }
	if (g_verbose) fprintf(stderr, "INCOMPLETE %s\n%s", m.c_str(), backtrace().c_str());
	finishPath(2);
}
static void recordViolation(const std::string &kind, const std::string &tag, const std::vector<u64> &model) {
	std::string loc = curLoc(), key = kind + "|" + tag + "|" + loc; u64 h = std::hash<std::string>()(key) | 1;
	for (int i = 0; i < 256; i++) {
		u64 cur = S->vkeys[i].hash; if (cur == 0) { u64 e = 0; if (S->vkeys[i].hash.compare_exchange_strong(e, h)) cur = h; else cur = e; }
		if (cur == h) {
			u32 c = S->vkeys[i].count++; if (c >= 3) return;
			u64 n = S->violations++; char nm[600]; snprintf(nm, sizeof nm, "%s/viol_%03d_%u.txt", g_outdir.c_str(), i, c); (void)n;
			FILE *f = fopen(nm, "w"); if (!f) return;
			fprintf(f, "# kind: %s\n# tag: %s\n# loc: %s\n", kind.c_str(), tag.c_str(), loc.c_str());
			std::string bt = backtrace(); size_t p = 0; while (p < bt.size()) { size_t q = bt.find('\n', p); fprintf(f, "# bt: %s\n", bt.substr(p, q - p).c_str()); p = q + 1; }
			writeInputs(f, model); fclose(f);
			if (g_verbose) { fprintf(stderr, "VIOL %s %s %s\n%s", kind.c_str(), tag.c_str(), loc.c_str(), bt.c_str()); for (size_t i = 0; i < g_vars.size() && i < 64; i++) fprintf(stderr, "   %s=%llx\n", g_vars[i].name.c_str(), (unsigned long long)model[i]); }
			return;
		}
	}
}
void violation(const std::string &kind, const std::string &tag) { recordViolation(kind, tag, g_model); }
void fatalViolation(const std::string &kind, const std::string &tag) { violation(kind, tag); finishPath(3); }

// ------------------------------------------------------------------------------------------------ solver
static bool g_replaying = false, g_guiding = false; static FILE *g_trace = nullptr; static Z3_solver g_solver; static bool g_fpmode = false; static std::vector<Expr *> g_pc; static std::unordered_map<Expr *, bool> g_known; std::vector<u64> g_qmodel;
static size_t g_asserted = 0;
static void onAlarm(int) { Z3_interrupt(g_ctx); }
static void z3err(Z3_context c, Z3_error_code e) { }
static Z3_solver makeSolver(bool fp) {
	Z3_solver s;
	if (!fp) s = Z3_mk_solver_for_logic(g_ctx, Z3_mk_string_symbol(g_ctx, "QF_FD"));
	else s = Z3_mk_solver_from_tactic(g_ctx, Z3_mk_tactic(g_ctx, "qffpbv"));
	Z3_solver_inc_ref(g_ctx, s); return s;
}
void assertPC(Expr *c) {
	if (c->k == CONST) { if (!c->c) finishPath(1); return; }
	if (c->k == AND && c->w == 1) { assertPC(c->a); assertPC(c->b); g_known[c] = true; return; }
	if (!g_known.emplace(c, true).second) return;
	g_known[mkNot(c)] = false;
	g_pc.push_back(c);
}
static void flushPC(Expr *extra) {
	bool fp = g_fpmode; if (!fp) { if (extra && extra->fp) fp = true; for (size_t i = g_asserted; i < g_pc.size(); i++) if (g_pc[i]->fp) fp = true; }
	if (fp && !g_fpmode) { g_fpmode = true; Z3_solver_dec_ref(g_ctx, g_solver); g_solver = makeSolver(true); g_asserted = 0; extern std::vector<Z3_ast> g_ranges; for (Z3_ast a : g_ranges) Z3_solver_assert(g_ctx, g_solver, a); }
	for (; g_asserted < g_pc.size(); g_asserted++) Z3_solver_assert(g_ctx, g_solver, toZ3(g_pc[g_asserted]));
}
// after an interrupted query the incremental state is not trusted: start a new solver
extern std::vector<Z3_ast> g_ranges;
static void resetSolver() { Z3_solver_dec_ref(g_ctx, g_solver); g_solver = makeSolver(g_fpmode); g_asserted = 0; for (Z3_ast a : g_ranges) Z3_solver_assert(g_ctx, g_solver, a); }
// variable ranges that are narrower than the width are asserted when the variable is made (freshVar)
int solve(Expr *extra) {
	if (extra && extra->k == CONST && !extra->c) return 0;
	if (S->stop) finishPath(2);
	if (g_guiding) { g_qmodel = g_model; return extra ? evalExpr(extra) != 0 : 1; }
	flushPC(extra);
	double t0 = now();
	if (g_deadline && t0 > g_deadline) incompletePath("time budget");
	S->queries++;
	double lim = g_qtimeout; if (g_deadline && g_deadline - t0 < lim) lim = g_deadline - t0 + 0.01;
	struct itimerval it = {{1, 0}, {(time_t)lim, (suseconds_t)((lim - floor(lim)) * 1e6)}}; setitimer(ITIMER_REAL, &it, nullptr);
	Z3_lbool r; Z3_ast as = nullptr;
	if (extra && g_fpmode) { Z3_solver_push(g_ctx, g_solver); Z3_solver_assert(g_ctx, g_solver, toZ3(extra)); r = Z3_solver_check(g_ctx, g_solver); }
	else if (extra) {
		as = toZ3(extra);
		Z3_solver_push(g_ctx, g_solver); Z3_solver_assert(g_ctx, g_solver, as); r = Z3_solver_check(g_ctx, g_solver);
	} else r = Z3_solver_check(g_ctx, g_solver);
	it = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
	int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
	if (res == 1) {
		Z3_model m = Z3_solver_get_model(g_ctx, g_solver); Z3_model_inc_ref(g_ctx, m); g_qmodel.assign(g_vars.size(), 0);
		for (size_t i = 0; i < g_vars.size(); i++) {
			Z3_ast v = Z3_mk_const(g_ctx, Z3_mk_int_symbol(g_ctx, (int)i), g_vars[i].w == 1 ? Z3_mk_bool_sort(g_ctx) : Z3_mk_bv_sort(g_ctx, g_vars[i].w)), o = nullptr;
			if (Z3_model_eval(g_ctx, m, v, true, &o) && o) { if (g_vars[i].w == 1) g_qmodel[i] = Z3_get_bool_value(g_ctx, o) == Z3_L_TRUE; else { uint64_t x = 0; Z3_get_numeral_uint64(g_ctx, o, &x); g_qmodel[i] = x; } }
			if (g_qmodel[i] < g_vars[i].lo || g_qmodel[i] > g_vars[i].hi) g_qmodel[i] = g_vars[i].lo;
		}
		Z3_model_dec_ref(g_ctx, m);
	}
	if (extra) Z3_solver_pop(g_ctx, g_solver, 1);
	double dt = now() - t0; u64 ns = (u64)(dt * 1e9); S->qns += ns; u64 o = S->qmaxns; while (ns > o && !S->qmaxns.compare_exchange_weak(o, ns)) ;
	if (dt > 5 && g_verbose) fprintf(stderr, "[slow query %.1fs r=%d at %s]\n", dt, res, curLoc().c_str());
	if (res == 1) { // sanity: the model must satisfy the query (catches translation errors)
		std::vector<u64> save; save.swap(g_model); g_model = g_qmodel; g_stamp++; bool ok = true;
		for (size_t i = 0; i < g_vars.size(); i++) ;
		if (extra && !evalExpr(extra)) ok = false; for (size_t i = 0; i < g_pc.size(); i++) if (!evalExpr(g_pc[i])) ok = false;
		g_model = save; g_stamp++;
		if (!ok) { if (!g_fpmode) { fprintf(stderr, "model does not satisfy query: %s\n", extra ? exprStr(extra, 5).c_str() : "pc"); } S->qunknown++; resetSolver(); return -1; }
		S->qsat++;
	} else if (res == 0) S->qunsat++; else { S->qunknown++; resetSolver(); }
	return res;
}
static void useModel() { g_model = g_qmodel; g_model.resize(g_vars.size()); g_stamp++; }
 static std::vector<std::pair<std::string, u64>> g_replayIn; static size_t g_replayPos = 0;
Expr *freshVar(const std::string &name, unsigned w, u64 lo, u64 hi) {
	if (hi > maskw(w)) hi = maskw(w);
	if (lo > hi) finishPath(1);
	if (g_replaying) { // concrete re-execution of recorded inputs
		if (g_replayPos >= g_replayIn.size()) incompletePath("replay: inputs exhausted at " + name);
		auto &p = g_replayIn[g_replayPos++]; if (p.first != name) incompletePath("replay: diverged, expected " + name + " recorded " + p.first);
		mkVar(name, w, lo, hi); g_model.resize(g_vars.size()); g_model.back() = p.second & maskw(w); if (g_guiding) { if (w <= 64 && lo == hi) return mkConst(lo, w); g_stamp++; Expr *e = nullptr; u32 n = g_vars.size() - 1; g_vars.pop_back(); e = mkVar(name, w, lo, hi); g_model.resize(g_vars.size()); g_model.back() = p.second & maskw(w); g_stamp++; return e; } return mkConst(p.second & maskw(w), w); }
	Expr *e = mkVar(name, w, lo, hi);
	if (e->k == VAR && (lo > 0 || hi < maskw(w))) { // assert the range in the solver (mk() would fold it away through the node's own range)
		Z3_ast z = toZ3(e); Z3_sort s = Z3_mk_bv_sort(g_ctx, w);
		if (w > 1) { Z3_ast cs[2] = { Z3_mk_bvuge(g_ctx, z, Z3_mk_unsigned_int64(g_ctx, lo, s)), Z3_mk_bvule(g_ctx, z, Z3_mk_unsigned_int64(g_ctx, hi, s)) }; flushPC(nullptr); Z3_solver_assert(g_ctx, g_solver, Z3_mk_and(g_ctx, 2, cs)); 
			static std::vector<Z3_ast> keep; Z3_ast a = Z3_mk_and(g_ctx, 2, cs); Z3_inc_ref(g_ctx, a); keep.push_back(a); (void)keep; extern std::vector<Z3_ast> g_ranges; g_ranges.push_back(a); }
	}
	return e;
}
std::vector<Z3_ast> g_ranges;

// ------------------------------------------------------------------------------------------------ forking
static bool doFork() { // true in the child
	flushCounters(); fflush(nullptr);
	int t = S->tokens; bool got = false; while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) { got = true; break; }
	S->forks++; S->started++;
	if (got) {
		pid_t p = fork(); if (p < 0) { S->tokens++; S->ended++; incompletePath("fork failed"); }
		if (p == 0) { g_mySlot = -1; g_pathDepth = 0; return true; }
		return false;
	}
	u32 slot = S->slotNext++ & ((1 << 20) - 1); S->slots[slot] = 0;
	pid_t p = fork(); if (p < 0) { S->ended++; incompletePath("fork failed"); }
	if (p == 0) { g_mySlot = slot; g_pathDepth++; return true; }
	useconds_t us = 200;
	for (;;) {
		int st; pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) { if (WIFSIGNALED(st)) { S->crashed++; S->ended++; } break; }
		int t = S->tokens; bool g = false; while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) { g = true; break; }
		if (g) { u32 e = 0; if (S->slots[slot].compare_exchange_strong(e, 1)) { break; } else { S->tokens++; } }
		usleep(us); if (us < 5000) us += us / 4;
	}
	return false;
}
bool branchOn(Expr *c) {
	if (c->k == CONST) return c->c;
	auto it = g_known.find(c); if (it != g_known.end()) return it->second;
	if (g_guiding) { bool mv = evalExpr(c); assertPC(mv ? c : mkNot(c)); return mv; }
	bool mv = evalExpr(c); Expr *nc = mkNot(c), *other = mv ? nc : c;
	int r = solve(other);
	if (r == 0) { g_known[c] = mv; g_known[nc] = !mv; return mv; }
	if (r < 0) { // cannot decide the other side: explore the known side, note the hole
		std::string m = "solver unknown at branch @ " + curLoc(); u32 n = S->incKeys++; if (n < 64) snprintf(S->incMsg[n], 256, "%s", m.c_str()); S->incomplete++;
		assertPC(mv ? c : nc); return mv; }
	Instruction *I = curInst(); if (I && g_forkAt) { Frame &f = g_cur->frames.back(); u32 bb = f.f->bbBase; u32 k = 0; for (u32 i = 0; i + 1 < f.f->blockStart.size() && f.f->blockStart[i + 1] <= f.pc; i++) k = i + 1; g_forkAt[bb + k]++; }
	if (doFork()) { useModel(); assertPC(other); return !mv; }
	assertPC(mv ? c : nc); return mv;
}
void assume(Expr *c) {
	if (c->k == CONST) { if (!c->c) finishPath(1); return; }
	auto it = g_known.find(c); if (it != g_known.end()) { if (!it->second) finishPath(1); return; }
	if (evalExpr(c)) { assertPC(c); return; }
	int r = solve(c); if (r == 0) finishPath(1); if (r < 0) incompletePath("solver unknown at assume");
	useModel(); assertPC(c);
}
u64 concretize(Expr *e, unsigned limit) {
	if (e->k == CONST) return e->c;
	for (unsigned i = 0; i < limit; i++) {
		u64 v = evalExpr(e);
		if (branchOn(mk(EQ, e, mkConst(v, e->w)))) return v;
	}
	incompletePath("too many values while concretising");
}

// ------------------------------------------------------------------------------------------------ memory
u32 newObj(u64 size, u32 flags, const char *name, u64 align) {
	u32 id = g_objs.size(); Obj o; memset((void *)&o, 0, sizeof o);
	if (size > 0xF0000000ULL) incompletePath("allocation too large");
	o.size = size; o.flags = flags; o.name = name; u64 low = 16; if (align > 16) low = align; if (flags & OK_HEAP && align <= 16) low = 16;
	o.base = ((u64)id << 32) + low; if (align > 0x1000) o.base = ((u64)id << 32) + align;
	if (size >= (1 << 16)) { o.data = (u8 *)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); o.flags |= OK_MMAP; if (o.data == MAP_FAILED) incompletePath("mmap"); }
	else { o.data = (u8 *)malloc(size ? size : 1); if (flags & OK_GLOBAL) memset(o.data, 0, size); else memset(o.data, g_junk ? 0xCD : 0, size); }
	g_objs.push_back(o); return id;
}
static inline u64 nchunks(const Obj &o) { return (o.size + 63) >> 6; }
static void dropSym(Obj &o) { if (o.chunks) { if (o.size < (1 << 20)) for (u64 i = 0; i < nchunks(o); i++) if (o.chunks[i]) free(o.chunks[i]); if (nchunks(o) >= 8192) munmap(o.chunks, nchunks(o) * 8); else free(o.chunks); o.chunks = nullptr; } o.nsym = 0; }
void freeObj(u32 id) { Obj &o = g_objs[id]; o.flags |= OK_DEAD; dropSym(o); if (o.flags & OK_MMAP) munmap(o.data, o.size); else free(o.data); o.data = nullptr; if (o.shadow) { delete o.shadow; o.shadow = nullptr; } }
static inline Expr *getSym(Obj &o, u64 i) { if (!o.chunks) return nullptr; Expr **c = o.chunks[i >> 6]; return c ? c[i & 63] : nullptr; }
static inline void setSym(Obj &o, u64 i, Expr *e) {
	if (!o.chunks) { if (!e) return; u64 n = nchunks(o); o.chunks = n >= 8192 ? (Expr ***)mmap(nullptr, n * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : (Expr ***)calloc(n, 8); }
	Expr **&c = o.chunks[i >> 6]; if (!c) { if (!e) return; c = (Expr **)calloc(64, 8); }
	if (c[i & 63] && !e) o.nsym--; else if (!c[i & 63] && e) o.nsym++;
	c[i & 63] = e;
}
Obj *lookupObj(u64 addr) { u64 id = addr >> 32; if (id >= g_objs.size() || id == 0) return nullptr; return &g_objs[id]; }
static std::string describe(u64 a, u64 size, bool write) {
	char b[200]; Obj *o = lookupObj(a); const char *rw = write ? "write" : "read";
	if (!o) { if (a < 65536) snprintf(b, sizeof b, "null-pointer %s", rw); else snprintf(b, sizeof b, "wild-pointer %s", rw); }
	else if (o->flags & OK_DEAD) snprintf(b, sizeof b, "%s of freed %s memory", rw, o->flags & OK_STACK ? "stack" : "heap");
	else if ((o->flags & OK_RO) && write) snprintf(b, sizeof b, "write to read-only memory");
	else snprintf(b, sizeof b, "%s outside %s object", rw, o->flags & OK_STACK ? "stack" : o->flags & OK_GLOBAL ? "global" : "heap");
	return b;
}
static inline bool okAccess(Obj *o, u64 a, u64 size, bool write) { return o && !(o->flags & OK_DEAD) && a >= o->base && size <= o->size && a - o->base <= o->size - size && !(write && (o->flags & OK_RO)); }
Ref resolve(const V &p, u64 size, bool write) {
	if (!p.e) {
		Obj *o = lookupObj(p.c);
		if (__builtin_expect(okAccess(o, p.c, size, write), 1)) return Ref{o, p.c - o->base, nullptr};
		if (size == 0) { static Obj dummy; return Ref{&dummy, 0, nullptr}; }
		fatalViolation("mem", describe(p.c, size, write));
	}
	for (int guard = 0; guard < 200; guard++) {
		u64 a = evalExpr(p.e); Obj *o = lookupObj(a);
		if (!okAccess(o, a, size, write)) {
			violation("mem", describe(a, size, write));
			// continue on the part of the input space where the access stays inside the object named by the pointer's constant part
			u64 base = 0; for (Expr *x = p.e; x->k == ADD; x = x->a) if (x->b->k == CONST) { base = x->b->c; break; }
			Obj *q = lookupObj(base);
			if (q && !(q->flags & OK_DEAD) && q->size >= size) {
				Expr *inb = mk(ULE, mk(SUB, p.e, mkConst(q->base, 64)), mkConst(q->size - size, 64)); assume(inb); continue; }
			finishPath(3);
		}
		Expr *off = mk(SUB, p.e, mkConst(o->base, 64)); Expr *inb = mk(ULE, off, mkConst(o->size - size, 64));
		if (!branchOn(inb)) continue;
		if (off->k == CONST) return Ref{o, off->c, nullptr};
		return Ref{o, 0, off};
	}
	incompletePath("pointer resolution");
}
V loadBytes(const Ref &r, u64 off, unsigned bytes, unsigned w) { // concrete offset
	Obj &o = *r.o; off += r.off;
	if (o.nsym) {
		bool any = false; for (unsigned i = 0; i < bytes; i++) if (getSym(o, off + i)) { any = true; break; }
		if (any) {
			Expr *e = nullptr;
			for (int i = (int)bytes - 1; i >= 0; i--) { Expr *b = getSym(o, off + i); if (!b) b = mkConst(o.data[off + i], 8); e = e ? mkConcat(e, b) : b; }
			if (e->w > w) e = mkExtract(e, 0, w); if (e->k == EXTRACT && e->aux == 0) e = mkExtract(e->a, 0, e->w);
			return fromE(e);
		}
	}
	if (bytes <= 8) { u64 v = 0; memcpy(&v, o.data + off, bytes); return vc(v & maskw(w)); }
	Expr *e = nullptr; for (int i = (int)bytes - 1; i >= 0; i--) { Expr *b = mkConst(o.data[off + i], 8); e = e ? mkConcat(e, b) : b; }
	if (e->w > w) e = mkExtract(e, 0, w); return fromE(e);
}
void storeBytes(const Ref &r, u64 off, unsigned bytes, unsigned w, V v) {
	Obj &o = *r.o; off += r.off;
	if (!v.e) { memcpy(o.data + off, &v.c, bytes); if (o.nsym) for (unsigned i = 0; i < bytes; i++) setSym(o, off + i, nullptr); return; }
	Expr *e = v.e; if (w < bytes * 8) e = mkZExt(e, bytes * 8);
	g_byteSlice = true; struct Off { ~Off() { g_byteSlice = false; } } off_;
	for (unsigned i = 0; i < bytes; i++) { Expr *b = mkExtract(e, 8 * i, 8); if (b->k == CONST) { o.data[off + i] = (u8)b->c; if (o.nsym) setSym(o, off + i, nullptr); } else setSym(o, off + i, b); }
}
static unsigned tz64(u64 v) { return v ? __builtin_ctzll(v) : 64; }
// feasible range of an offset expression under the path condition (tightened with the solver only when wide)
static void feasibleRange(Expr *off, u64 maxoff, u64 &lo, u64 &hi, u64 span) {
	lo = off->lo; hi = std::min(off->hi, maxoff);
	if (hi - lo <= span) return;
	// tighten the upper bound, then the lower, by bisection
	u64 cur = evalExpr(off), L = cur, H = hi; int n = 0;
	while (L < H && n++ < 40) { u64 mid = L + (H - L) / 2; int r = solve(mk(ULT, mkConst(mid, 64), off)); if (r == 0) H = mid; else if (r == 1) { std::vector<u64> sv = g_model; g_model = g_qmodel; g_stamp++; L = evalExpr(off); g_model = sv; g_stamp++; } else break; if (H - lo <= span / 2) break; }
	hi = H; L = lo; H = cur; n = 0;
	if (hi - lo > span) while (L < H && n++ < 40) { u64 mid = L + (H - L) / 2; int r = solve(mk(ULE, off, mkConst(mid, 64))); if (r == 0) L = mid + 1; else if (r == 1) { std::vector<u64> sv = g_model; g_model = g_qmodel; g_stamp++; H = evalExpr(off); g_model = sv; g_stamp++; } else break; }
	lo = L;
}
static u64 g_muxSpan = 8192, g_writeSpan = 512;
static Expr *muxRead(Obj &o, Expr *off, u64 lo, u64 hi, u64 stride, u64 rem, unsigned delta, unsigned bytes, unsigned w) {
	// recursive split on address bits, from the top bit that differs
	struct R {
		Obj &o; Expr *off; u64 stride, rem; unsigned delta, bytes, w;
		Expr *go(u64 lo, u64 hi, int bit) { // offsets in [lo,hi] sharing all bits above `bit`
			if (lo > hi) return nullptr;
			if (stride > 1 && bit >= 0 && (2ULL << bit) <= stride) { u64 c = (lo + stride - 1) & ~(stride - 1); if (c > hi) return nullptr; Ref r{&o, c, nullptr}; return toE(loadBytes(r, delta, bytes, w), w); }
			if (bit < 0) { if (stride > 1 && (lo & (stride - 1)) != rem) return nullptr; Ref r{&o, lo, nullptr}; return toE(loadBytes(r, delta, bytes, w), w); }
			u64 b = 1ULL << bit, pre = lo >> bit >> 1 << bit << 1; u64 m0hi = pre + b - 1, m1lo = pre + b;
			Expr *z = lo <= m0hi ? go(lo, std::min(hi, m0hi), bit - 1) : nullptr, *on = hi >= m1lo ? go(std::max(lo, m1lo), hi, bit - 1) : nullptr;
			if (!z) return on; if (!on) return z;
			return mkIte(mkExtract(off, bit, 1), on, z);
		}
	} R{o, off, stride, rem, delta, bytes, w};
	int top = (lo ^ hi) ? 63 - __builtin_clzll(lo ^ hi) : -1;
	if (lo == hi) return R.go(lo, hi, -1);
	return R.go(lo, hi, top);
}
V symLoad(const Ref &r, u64 size, u64 delta, unsigned bytes, unsigned w) {
	Obj &o = *r.o; u64 lo, hi; u64 k = r.soff->kz; unsigned tz = tz64(~k & ~0ULL); if (r.soff->kz == 0) tz = 0; if (tz > 12) tz = 12;
	feasibleRange(r.soff, o.size - size, lo, hi, g_muxSpan << tz);
	if ((hi - lo) >> tz > g_muxSpan) { u64 c = concretize(r.soff); Ref q{&o, c, nullptr}; return loadBytes(q, delta, bytes, w); }
	Expr *e = muxRead(o, r.soff, lo, hi, 1ULL << tz, 0, (unsigned)delta, bytes, w);
	if (!e) finishPath(1);
	return fromE(e);
}
static void symStore(Ref r, u64 size, std::vector<std::pair<Leaf, V>> &vals) {
	Obj &o = *r.o; u64 lo, hi; unsigned tz = tz64(~r.soff->kz); if (tz > 12) tz = 12;
	feasibleRange(r.soff, o.size - size, lo, hi, g_writeSpan << tz);
	if ((hi - lo) >> tz > g_writeSpan) { u64 c = concretize(r.soff); Ref q{&o, c, nullptr}; for (auto &p : vals) storeBytes(q, p.first.off, p.first.bytes, p.first.w, p.second); return; }
	// precompute new byte expressions for each candidate
	for (u64 c = (lo + (1ULL << tz) - 1) >> tz << tz; c <= hi; c += 1ULL << tz) {
		Expr *hit = mk(EQ, r.soff, mkConst(c, 64)); if (hit->k == CONST && !hit->c) continue;
		for (auto &p : vals) {
			Expr *e = toE(p.second, p.first.w); if (p.first.w < p.first.bytes * 8) e = mkZExt(e, p.first.bytes * 8);
			for (unsigned i = 0; i < p.first.bytes; i++) {
				u64 at = c + p.first.off + i; Expr *old = getSym(o, at); if (!old) old = mkConst(o.data[at], 8);
				Expr *nb = mkIte(hit, mkExtract(e, 8 * i, 8), old);
				if (nb->k == CONST) { o.data[at] = (u8)nb->c; setSym(o, at, nullptr); } else setSym(o, at, nb);
			}
		}
	}
}
static void raceCheck(Obj &o, u64 off, u64 n, bool write, bool atomic);
void memCopy(const V &dst, const V &src, u64 n, bool ov) {
	if (!n) return;
	V s = src, d = dst;
	Ref rs = resolve(s, n, false); if (rs.soff) { u64 lo = rs.soff->lo, hi = std::min(rs.soff->hi, rs.o->size - n);
		if (hi - lo > 64 || n > 64) { rs.off = concretize(rs.soff); rs.soff = nullptr; } }
	Ref rd = resolve(d, n, true); if (rd.soff) { rd.off = concretize(rd.soff); rd.soff = nullptr; }
	if (g_threads.size() > 1) { if (!rs.soff) raceCheck(*rs.o, rs.off, n, false, false); raceCheck(*rd.o, rd.off, n, true, false); }
	if (rs.soff) { // symbolic source, small: byte-wise mux
		std::vector<V> tmp(n); for (u64 i = 0; i < n; i++) tmp[i] = symLoad(rs, n, i, 1, 8);
		for (u64 i = 0; i < n; i++) storeBytes(rd, i, 1, 8, tmp[i]); return;
	}
	if (rs.o->nsym == 0 && rd.o->nsym == 0) { memmove(rd.o->data + rd.off, rs.o->data + rs.off, n); return; }
	if (rs.o == rd.o && rs.off == rd.off) return;
	bool back = rs.o == rd.o && rs.off < rd.off;
	if (n > 4096 && rs.o->nsym == 0) { // mass copy of concrete data over partly symbolic destination
		memmove(rd.o->data + rd.off, rs.o->data + rs.off, n); for (u64 i = 0; i < n; i++) { if (((rd.off + i) & 63) == 0 && n - i >= 64 && rd.o->chunks && !rd.o->chunks[(rd.off + i) >> 6]) { i += 63; continue; } setSym(*rd.o, rd.off + i, nullptr); } return; }
	for (u64 j = 0; j < n; j++) { u64 i = back ? n - 1 - j : j; Expr *e = getSym(*rs.o, rs.off + i); if (e) setSym(*rd.o, rd.off + i, e); else { rd.o->data[rd.off + i] = rs.o->data[rs.off + i]; if (rd.o->nsym) setSym(*rd.o, rd.off + i, nullptr); } }
}
// zero-filling a large anonymous mapping: give the pages back instead of touching them
static void fillBytes(Obj &o, u64 off, u8 v, u64 n) {
	if (v || !(o.flags & OK_MMAP) || n < (1 << 20)) { memset(o.data + off, v, n); return; }
	u8 *from = o.data + off, *to = from + n, *pf = (u8 *)(((u64)from + 4095) & ~4095ULL), *pt = (u8 *)((u64)to & ~4095ULL);
	memset(from, 0, pf - from); madvise(pf, pt - pf, MADV_DONTNEED); memset(pt, 0, to - pt);
}
void memSet(const V &dst, const V &val, u64 n) {
	if (!n) return;
	Ref rd = resolve(dst, n, true); if (rd.soff) { rd.off = concretize(rd.soff); rd.soff = nullptr; }
	if (g_threads.size() > 1) raceCheck(*rd.o, rd.off, n, true, false);
	Obj &o = *rd.o;
	if (!val.e) { fillBytes(o, rd.off, (u8)val.c, n);
		if (o.nsym) for (u64 i = 0; i < n; i++) { u64 at = rd.off + i; if ((at & 63) == 0 && n - i >= 64 && !o.chunks[at >> 6]) { i += 63; continue; } setSym(o, at, nullptr); } return; }
	Expr *e = mkExtract(val.e, 0, 8); if (e->k == CONST) { memSet(dst, vc(e->c), n); return; }
	for (u64 i = 0; i < n; i++) setSym(o, rd.off + i, e);
}
std::string readCStr(const V &p) {
	std::string s; V q = p; for (u64 i = 0; i < 100000; i++) { V a = q.e ? fromE(mk(ADD, q.e, mkConst(i, 64))) : vc(q.c + i); Ref r = resolve(a, 1, false); if (r.soff) { r.off = concretize(r.soff); r.soff = nullptr; } V b = loadBytes(r, 0, 1, 8); u64 ch = b.e ? concretize(b.e) : b.c; if (!ch) break; s += (char)ch; } return s;
}

// ------------------------------------------------------------------------------------------------ races
static void raceCheck(Obj &o, u64 off, u64 n, bool write, bool atomic) {
	if (!g_races || (o.flags & OK_RO) || n > 65536) return;
	u32 me = g_cur->id; if (me >= 6) return;
	if (!o.shadow) { if (o.size > (1 << 24)) return; o.shadow = new std::vector<Shadow>(o.size); }
	std::vector<u32> &vc_ = g_cur->vclock; auto clk = [&](u32 t) { return t < vc_.size() ? vc_[t] : 0; };
	for (u64 i = off; i < off + n && i < o.size; i++) {
		Shadow &s = (*o.shadow)[i]; bool race = false;
		if (s.wclk && s.wtid != me && s.wclk > clk(s.wtid) && !(atomic && s.watomic)) race = true;
		if (write) for (u32 t = 0; t < 6; t++) if (t != me && s.rclk[t] > clk(t) && !(atomic && (s.watomic & 2))) race = true;
		if (race) { std::string l = write ? "data race (write)" : "data race (read)"; violation("race", l); g_races = false; finishPath(3); }
		if (write) { s.wclk = vc_[me]; s.wtid = me; s.watomic = (s.watomic & 2) | (atomic ? 1 : 0); } else { s.rclk[me] = vc_[me]; if (atomic) s.watomic |= 2; else s.watomic &= ~2; }
	}
}

// ------------------------------------------------------------------------------------------------ decoding
static std::unordered_map<const Function *, DFunc *> g_funcs; static std::unordered_map<const GlobalValue *, u64> g_addr; static std::unordered_map<u64, Function *> g_fnAt; static std::unordered_map<const Function *, u32> g_bbBase;
static const u64 FBASE = 0x7F0000000000ULL;
static unsigned fpw(Type *t) { return t->isFloatTy() ? 32 : 64; }
static unsigned laneW(Type *t) { t = t->getScalarType(); if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; return 64; }
static void flat(Type *t, u32 off, std::vector<Leaf> &out) {
	if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
	if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * es, out); return; }
	if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned w = laneW(t); for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back(Leaf{w % 8 ? off : off + i * (w / 8), (uint16_t)w, 0, (u8)(w % 8 ? 0 : w / 8)}); return; }
	if (t->isX86_FP80Ty()) { out.push_back(Leaf{off, 64, 1, 10}); return; }
	if (t->isVoidTy()) return;
	unsigned w = laneW(t); out.push_back(Leaf{off, (uint16_t)w, 0, (u8)((w + 7) / 8)});
}
static std::unordered_map<Type *, std::vector<Leaf> *> g_flat;
static std::vector<Leaf> &leaves(Type *t) { auto *&p = g_flat[t]; if (!p) { p = new std::vector<Leaf>; flat(t, 0, *p); } return *p; }
static u32 nlanes(Type *t) { return leaves(t).size(); }
u64 globalAddr(GlobalValue *g) {
	auto it = g_addr.find(g); if (it != g_addr.end()) return it->second;
	if (auto *a = dyn_cast<GlobalAlias>(g)) { u64 r = globalAddr(cast<GlobalValue>(a->getAliasee()->stripPointerCasts())); g_addr[g] = r; return r; }
	if (auto *F = dyn_cast<Function>(g)) { u64 a = FBASE + g_fnAt.size() * 16; g_fnAt[a] = F; g_addr[g] = a; return a; }
	return 0;
}
static void constLanes(Constant *c, std::vector<V> &out) {
	Type *t = c->getType();
	if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) out.push_back(fromE(mkBig(ci->getValue()))); else out.push_back(vc(ci->getZExtValue())); return; }
	if (auto *cf = dyn_cast<ConstantFP>(c)) { if (t->isX86_FP80Ty()) { APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); out.push_back(vc(f.bitcastToAPInt().getZExtValue())); } else out.push_back(vc(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
	if (isa<ConstantPointerNull>(c)) { out.push_back(vc(0)); return; }
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (auto &l : leaves(t)) out.push_back(l.w > 64 ? fromE(mkConst(0, l.w)) : vc(0)); return; }
	if (auto *g = dyn_cast<GlobalValue>(c)) { out.push_back(vc(globalAddr(g))); return; }
	if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < ds->getNumElements(); i++) constLanes(ds->getElementAsConstant(i), out); return; }
	if (isa<ConstantAggregate>(c)) { for (auto &op : c->operands()) constLanes(cast<Constant>(op), out); return; }
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		if (Constant *f = ConstantFoldConstant(ce, *DL)) if (f != ce) return constLanes(f, out);
		std::vector<V> a; 
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: { auto *gep = cast<GEPOperator>(ce); APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) break; constLanes(cast<Constant>(gep->getPointerOperand()), a); out.push_back(vc(a[0].c + off.getZExtValue())); return; }
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: constLanes(ce->getOperand(0), a); if (a.size() == 1) { out.push_back(vc(a[0].c & maskw(laneW(t)))); return; } break;
		case Instruction::Trunc: constLanes(ce->getOperand(0), a); out.push_back(vc(a[0].c & maskw(laneW(t)))); return;
		case Instruction::Add: case Instruction::Sub: case Instruction::Mul: { constLanes(ce->getOperand(0), a); constLanes(ce->getOperand(1), a); out.push_back(vc(foldBin(ce->getOpcode() == Instruction::Add ? ADD : ce->getOpcode() == Instruction::Sub ? SUB : MUL, a[0].c, a[1].c, laneW(t)))); return; }
		case Instruction::ICmp: { constLanes(ce->getOperand(0), a); constLanes(ce->getOperand(1), a); auto p = (CmpInst::Predicate)ce->getPredicate(); out.push_back(vc(p == CmpInst::ICMP_EQ ? a[0].c == a[1].c : p == CmpInst::ICMP_NE ? a[0].c != a[1].c : a[0].c < a[1].c)); return; }
		default: break;
		}
	}
	std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", s.substr(0, 300).c_str()); incompletePath("unsupported constant");
}
static void storeConst(u8 *p, Constant *c) {
	Type *t = c->getType(); if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
	if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { StringRef d = ds->getRawDataValues(); memcpy(p, d.data(), d.size()); return; }
	if (isa<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < c->getNumOperands(); i++) storeConst(p + sl->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
	if (isa<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) storeConst(p + i * es, cast<Constant>(c->getOperand(i))); return; }
	std::vector<V> v; constLanes(c, v); auto &lv = leaves(t);
	for (size_t i = 0; i < v.size(); i++) {
		if (lv[i].fp80) { double d; memcpy(&d, &v[i].c, 8); long double ld = d; memcpy(p + lv[i].off, &ld, 10); }
		else if (v[i].e) { APInt b = *v[i].e->big; memcpy(p + lv[i].off, b.getRawData(), lv[i].bytes); }
		else memcpy(p + lv[i].off, &v[i].c, lv[i].bytes);
	}
}

enum { O_BIN, O_FBIN, O_FNEG, O_ICMP, O_FCMP, O_SEL, O_LOAD, O_STORE, O_GEP, O_TRUNC, O_ZEXT, O_SEXT, O_BITCAST, O_COPY, O_FPCONV, O_FPTOI, O_ITOFP, O_BR, O_JMP, O_SWITCH, O_RET, O_CALL, O_ALLOCA, O_EXTRACTV, O_INSERTV, O_EXTRACTE, O_INSERTE, O_SHUF, O_RMW, O_CAS, O_FENCE, O_LPAD, O_RESUME, O_UNREACH, O_UNSUP, O_VAARG };
struct GepX { std::vector<std::tuple<int, u64, unsigned, u32>> idx; };
struct SwX { std::vector<std::pair<u64, Edge>> cases; Edge def; };
struct LPadX { std::vector<std::pair<int, u64>> clauses; bool cleanup; };

struct Decoder {
	DFunc *D; std::unordered_map<const Value *, int> slot; std::unordered_map<const Value *, int> cslot; u32 next = 0;
	int ref(Value *v) {
		auto it = slot.find(v); if (it != slot.end()) return it->second;
		if (auto *c = dyn_cast<Constant>(v)) { auto i2 = cslot.find(v); if (i2 != cslot.end()) return i2->second; int r = ~(int)D->consts.size(); std::vector<V> o; constLanes(c, o); if (o.empty()) o.push_back(vc(0)); D->consts.insert(D->consts.end(), o.begin(), o.end()); cslot[v] = r; return r; }
		if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return 0;
		fprintf(stderr, "no slot\n"); abort();
	}
	Edge mkEdge(BasicBlock *from, BasicBlock *to, std::unordered_map<BasicBlock *, u32> &bidx) {
		Edge e; e.bb = bidx[to]; e.target = 0; e.overlap = false; std::set<int> dsts;
		for (PHINode &p : to->phis()) { Edge::Mv m{slot[&p], ref(p.getIncomingValueForBlock(from)), nlanes(p.getType())}; e.moves.push_back(m); }
		for (auto &m : e.moves) { for (auto &q : e.moves) if (&q != &m && m.src >= 0 && q.dst <= m.src && m.src < q.dst + (int)q.n) e.overlap = true; }
		return e;
	}
	DFunc *run(Function *F) {
		D = new DFunc; D->F = F; D->bbBase = g_bbBase[F];
		for (Argument &a : F->args()) { slot[&a] = next; D->paramSlot.push_back(next); next += std::max(1u, nlanes(a.getType())); }
		std::unordered_map<BasicBlock *, u32> bidx; u32 bi = 0;
		for (BasicBlock &B : *F) { bidx[&B] = bi++; for (Instruction &I : B) if (!I.getType()->isVoidTy()) { slot[&I] = next; next += std::max(1u, nlanes(I.getType())); } }
		D->nregs = next; std::vector<Edge *> fix;
		for (BasicBlock &B : *F) {
			D->blockStart.push_back(D->code.size());
			for (Instruction &I : B) {
				if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
				DInst d; memset((void *)&d, 0, sizeof d); d.I = &I; d.op = O_UNSUP; Type *T = I.getType(); d.n = T->isVoidTy() ? 0 : nlanes(T); d.w = T->isVoidTy() ? 0 : laneW(T); d.dst = T->isVoidTy() ? 0 : slot[&I];
				if (T->isStructTy() || T->isArrayTy()) d.w = 0;
				auto R = [&](unsigned i) { return ref(I.getOperand(i)); };
				switch (I.getOpcode()) {
				case Instruction::Add: d.op = O_BIN; d.sub = ADD; break; case Instruction::Sub: d.op = O_BIN; d.sub = SUB; break; case Instruction::Mul: d.op = O_BIN; d.sub = MUL; break;
				case Instruction::UDiv: d.op = O_BIN; d.sub = UDIV; break; case Instruction::SDiv: d.op = O_BIN; d.sub = SDIV; break; case Instruction::URem: d.op = O_BIN; d.sub = UREM; break; case Instruction::SRem: d.op = O_BIN; d.sub = SREM; break;
				case Instruction::And: d.op = O_BIN; d.sub = AND; break; case Instruction::Or: d.op = O_BIN; d.sub = OR; break; case Instruction::Xor: d.op = O_BIN; d.sub = XOR; break;
				case Instruction::Shl: d.op = O_BIN; d.sub = SHL; break; case Instruction::LShr: d.op = O_BIN; d.sub = LSHR; break; case Instruction::AShr: d.op = O_BIN; d.sub = ASHR; break;
				case Instruction::FAdd: d.op = O_FBIN; d.sub = FADD; break; case Instruction::FSub: d.op = O_FBIN; d.sub = FSUB; break; case Instruction::FMul: d.op = O_FBIN; d.sub = FMUL; break; case Instruction::FDiv: d.op = O_FBIN; d.sub = FDIV; break;
				case Instruction::FNeg: d.op = O_FNEG; break;
				case Instruction::ICmp: d.op = O_ICMP; d.sub = cast<ICmpInst>(I).getPredicate(); d.w = laneW(I.getOperand(0)->getType()); break;
				case Instruction::FCmp: d.op = O_FCMP; d.sub = cast<FCmpInst>(I).getPredicate(); d.w = fpw(I.getOperand(0)->getType()->getScalarType()); break;
				case Instruction::Select: d.op = O_SEL; d.imm = I.getOperand(0)->getType()->isVectorTy(); d.c = R(2); break;
				case Instruction::Load: d.op = O_LOAD; d.x = &leaves(T); d.imm = DL->getTypeStoreSize(T); d.sub = cast<LoadInst>(I).isAtomic(); break;
				case Instruction::Store: d.op = O_STORE; d.x = &leaves(I.getOperand(0)->getType()); d.imm = DL->getTypeStoreSize(I.getOperand(0)->getType()); d.sub = cast<StoreInst>(I).isAtomic(); break;
				case Instruction::GetElementPtr: {
					d.op = O_GEP; auto *x = new GepX; u64 off = 0;
					for (auto gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi) {
						Value *op = gi.getOperand();
						if (StructType *st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op->getType()->isVectorTy() ? cast<Constant>(op)->getSplatValue() : op)->getZExtValue()); continue; }
						u64 es = DL->getTypeAllocSize(gi.getIndexedType());
						if (auto *ci = dyn_cast<ConstantInt>(op)) off += (u64)ci->getSExtValue() * es;
						else x->idx.emplace_back(ref(op), es, laneW(op->getType()), nlanes(op->getType()));
					}
					d.imm = off; d.x = x; d.sub = I.getOperand(0)->getType()->isVectorTy(); d.w = 64; break; }
				case Instruction::Trunc: d.op = O_TRUNC; break; case Instruction::ZExt: d.op = O_ZEXT; d.imm = laneW(I.getOperand(0)->getType()); break; case Instruction::SExt: d.op = O_SEXT; d.imm = laneW(I.getOperand(0)->getType()); break;
				case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned sw = laneW(I.getOperand(0)->getType()); d.imm = sw; d.op = sw == d.w ? O_COPY : sw > d.w ? O_TRUNC : O_ZEXT; break; }
				case Instruction::AddrSpaceCast: d.op = O_COPY; break;
				case Instruction::Freeze: d.op = O_COPY; break;
				case Instruction::BitCast: d.imm = laneW(I.getOperand(0)->getType()); d.b = nlanes(I.getOperand(0)->getType()); d.op = d.imm == d.w ? O_COPY : O_BITCAST; d.a = R(0); D->code.push_back(d); continue;
				case Instruction::FPTrunc: case Instruction::FPExt: d.op = O_FPCONV; d.w = fpw(T->getScalarType()); d.imm = fpw(I.getOperand(0)->getType()->getScalarType()); break;
				case Instruction::FPToSI: d.op = O_FPTOI; d.sub = FPTOSI; d.imm = fpw(I.getOperand(0)->getType()->getScalarType()); break; case Instruction::FPToUI: d.op = O_FPTOI; d.sub = FPTOUI; d.imm = fpw(I.getOperand(0)->getType()->getScalarType()); break;
				case Instruction::SIToFP: d.op = O_ITOFP; d.sub = SITOFP; d.w = fpw(T->getScalarType()); d.imm = laneW(I.getOperand(0)->getType()); break; case Instruction::UIToFP: d.op = O_ITOFP; d.sub = UITOFP; d.w = fpw(T->getScalarType()); d.imm = laneW(I.getOperand(0)->getType()); break;
				case Instruction::Br: { auto &b = cast<BranchInst>(I); auto *e = new Edge[2]; e[0] = mkEdge(&B, b.getSuccessor(0), bidx); fix.push_back(&e[0]); if (b.isConditional()) { e[1] = mkEdge(&B, b.getSuccessor(1), bidx); fix.push_back(&e[1]); d.op = O_BR; d.a = ref(b.getCondition()); } else d.op = O_JMP; d.x = e; D->code.push_back(d); continue; }
				case Instruction::Switch: { auto &s = cast<SwitchInst>(I); auto *x = new SwX; x->cases.reserve(s.getNumCases()); for (auto c : s.cases()) { x->cases.emplace_back(c.getCaseValue()->getZExtValue(), mkEdge(&B, c.getCaseSuccessor(), bidx)); fix.push_back(&x->cases.back().second); } x->def = mkEdge(&B, s.getDefaultDest(), bidx); fix.push_back(&x->def); d.op = O_SWITCH; d.x = x; d.a = ref(s.getCondition()); d.w = laneW(s.getCondition()->getType()); D->code.push_back(d); continue; }
				case Instruction::Ret: d.op = O_RET; if (I.getNumOperands()) { d.a = R(0); d.n = nlanes(I.getOperand(0)->getType()); } else d.n = 0; D->code.push_back(d); continue;
				case Instruction::Alloca: { auto &a = cast<AllocaInst>(I); d.op = O_ALLOCA; d.imm = DL->getTypeAllocSize(a.getAllocatedType()); d.a = ref(a.getArraySize()); d.b = a.getAlign().value(); break; }
				case Instruction::ExtractValue: { auto &ev = cast<ExtractValueInst>(I); Type *t = I.getOperand(0)->getType(); u32 o = 0; for (unsigned ix : ev.indices()) { for (unsigned k = 0; k < ix; k++) o += nlanes(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } d.op = O_EXTRACTV; d.imm = o; d.n = nlanes(t); break; }
				case Instruction::InsertValue: { auto &iv = cast<InsertValueInst>(I); Type *t = I.getOperand(0)->getType(); u32 o = 0; for (unsigned ix : iv.indices()) { for (unsigned k = 0; k < ix; k++) o += nlanes(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } d.op = O_INSERTV; d.imm = o; d.c = nlanes(t); break; }
				case Instruction::ExtractElement: d.op = O_EXTRACTE; d.imm = nlanes(I.getOperand(0)->getType()); break;
				case Instruction::InsertElement: d.op = O_INSERTE; d.c = R(2); break;
				case Instruction::ShuffleVector: { d.op = O_SHUF; d.imm = nlanes(I.getOperand(0)->getType()); auto *m = new std::vector<int>(); for (int v : cast<ShuffleVectorInst>(I).getShuffleMask()) m->push_back(v); d.x = m; break; }
				case Instruction::AtomicRMW: d.op = O_RMW; d.sub = cast<AtomicRMWInst>(I).getOperation(); break;
				case Instruction::AtomicCmpXchg: d.op = O_CAS; d.w = laneW(I.getOperand(1)->getType()); d.c = R(2); break;
				case Instruction::Fence: d.op = O_FENCE; break;
				case Instruction::LandingPad: { auto &lp = cast<LandingPadInst>(I); auto *x = new LPadX; x->cleanup = lp.isCleanup(); for (unsigned i = 0; i < lp.getNumClauses(); i++) { if (lp.isCatch(i)) { std::vector<V> v; constLanes(lp.getClause(i), v); x->clauses.emplace_back(0, v[0].c); } else x->clauses.emplace_back(1, 0); } d.op = O_LPAD; d.x = x; D->code.push_back(d); continue; }
				case Instruction::Resume: d.op = O_RESUME; break;
				case Instruction::Unreachable: d.op = O_UNREACH; break;
				case Instruction::VAArg: d.op = O_VAARG; break;
				case Instruction::Call: case Instruction::Invoke: {
					auto &cb = cast<CallBase>(I); auto *ci = new CallInfo; ci->I = &cb; ci->F = cb.getCalledFunction(); ci->b = nullptr; ci->dst = d.dst; ci->n = d.n; ci->w = T->isVoidTy() ? 0 : laneW(T); ci->normal = ci->unwind = nullptr; ci->callee = 0; ci->aux = 0;
					if (!ci->F) if (auto *al = dyn_cast<GlobalAlias>(cb.getCalledOperand()->stripPointerCasts())) ci->F = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
					if (!ci->F && !cb.isInlineAsm()) ci->callee = ref(cb.getCalledOperand());
					for (unsigned i = 0; i < cb.arg_size(); i++) { Value *v = cb.getArgOperand(i); if (isa<MetadataAsValue>(v->stripPointerCasts()) || v->getType()->isMetadataTy()) { ci->args.push_back(0); ci->argn.push_back(0); ci->argw.push_back(0); ci->byval.push_back(0); ci->argfp.push_back(false); continue; }
						ci->args.push_back(ref(v)); ci->argn.push_back(nlanes(v->getType())); ci->argw.push_back(laneW(v->getType())); ci->byval.push_back(cb.isByValArgument(i) ? DL->getTypeAllocSize(cb.getParamByValType(i)) : 0); ci->argfp.push_back(v->getType()->isFloatingPointTy()); }
					if (auto *inv = dyn_cast<InvokeInst>(&I)) { auto *e = new Edge[2]; e[0] = mkEdge(&B, inv->getNormalDest(), bidx); e[1] = mkEdge(&B, inv->getUnwindDest(), bidx); fix.push_back(&e[0]); fix.push_back(&e[1]); ci->normal = &e[0]; ci->unwind = &e[1]; }
					d.op = O_CALL; d.x = ci; d.sub = cb.isInlineAsm(); D->code.push_back(d); continue; }
				default: break;
				}
				if (I.getNumOperands() > 0) d.a = R(0);
				if (I.getNumOperands() > 1 && I.getOpcode() != Instruction::GetElementPtr && I.getOpcode() != Instruction::Alloca) d.b = R(1);
				D->code.push_back(d);
			}
		}
		for (Edge *e : fix) e->target = D->blockStart[e->bb];
		return D;
	}
};
static DFunc *decode(Function *F) { DFunc *&d = g_funcs[F]; if (!d) { Decoder x; d = x.run(F); } return d; }

// ------------------------------------------------------------------------------------------------ calls
static std::vector<V *> g_regPool[32];
static V *allocRegs(u32 n) { unsigned k = 32 - __builtin_clz(n | 15); if (!g_regPool[k].empty()) { V *v = g_regPool[k].back(); g_regPool[k].pop_back(); return v; } return (V *)malloc(sizeof(V) << k); }
static void freeRegs(V *v, u32 n) { unsigned k = 32 - __builtin_clz(n | 15); g_regPool[k].push_back(v); }
void pushCall(Function *F, CallInfo *ci, const std::vector<V> &args) {
	if (F->isDeclaration()) incompletePath("call of undefined function " + F->getName().str());
	DFunc *d = decode(F); if (g_cur->frames.size() > 20000) fatalViolation("mem", "stack overflow (unbounded recursion)");
	Frame f; f.f = d; f.pc = 0; f.call = ci; f.vaArea = 0; f.regs = allocRegs(d->nregs + 1); memset((void *)f.regs, 0, sizeof(V) * (d->nregs + 1));
	u32 k = 0, ai = 0; for (Argument &a : F->args()) { u32 n = nlanes(a.getType()); for (u32 i = 0; i < n && k < args.size(); i++) f.regs[d->paramSlot[ai] + i] = args[k++]; ai++; }
	if (F->isVarArg() && ci) { for (size_t i = F->arg_size(); i < ci->args.size(); i++) { for (u32 j = 0; j < ci->argn[i] && k < args.size(); j++) { f.varargs.push_back(args[k++]); f.varw.push_back(ci->argw[i]); f.varfp.push_back(ci->argfp[i]); } } }
	g_cov[d->bbBase].store(1, std::memory_order_relaxed);
	g_cur->frames.push_back(std::move(f));
}
static void takeEdge(Frame &f, Edge &e) {
	if (e.overlap) { static thread_local std::vector<V> tmp; tmp.clear(); for (auto &m : e.moves) { V *s = f.get(m.src); tmp.insert(tmp.end(), s, s + m.n); } size_t k = 0; for (auto &m : e.moves) for (u32 i = 0; i < m.n; i++) f.regs[m.dst + i] = tmp[k++]; }
	else for (auto &m : e.moves) { V *s = f.get(m.src); for (u32 i = 0; i < m.n; i++) f.regs[m.dst + i] = s[i]; }
	f.pc = e.target; auto &c = g_cov[f.f->bbBase + e.bb]; if (!c.load(std::memory_order_relaxed)) c.store(1, std::memory_order_relaxed);
}
static void popFrame() { Frame &f = g_cur->frames.back(); for (u32 id : f.allocas) freeObj(id); if (f.vaArea) freeObj(f.vaArea >> 32); freeRegs(f.regs, f.f->nregs + 1); g_cur->frames.pop_back(); }
static void doReturn(V *vals, u32 n) {
	V tmp[64]; std::vector<V> big; V *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (u32 i = 0; i < n; i++) t[i] = vals[i];
	CallInfo *ci = g_cur->frames.back().call; popFrame();
	if (g_cur->frames.empty()) { g_cur->retval = n ? t[0] : vc(0); g_cur->state = 3; return; }
	if (!ci) return; // pseudo call: caller's pc was already set
	Frame &c = g_cur->frames.back(); for (u32 i = 0; i < ci->n && i < n; i++) c.regs[ci->dst + i] = t[i];
	if (ci->normal) takeEdge(c, *ci->normal); else c.pc++;
}
// ---- exceptions
static std::string typeName(u64 ti) { for (auto &g : M->globals()) { auto it = g_addr.find(&g); if (it != g_addr.end() && it->second == ti) return g.getName().str(); } return ""; }
static std::string stdParent(const std::string &n) {
	static std::map<std::string, std::string> p = {{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt17bad_function_call","_ZTISt9exception"}};
	auto it = p.find(n); return it == p.end() ? "" : it->second; }
static bool excMatches(u64 thrown, u64 handler) {
	if (!handler || thrown == handler) return true;
	std::string tn = typeName(thrown), hn = typeName(handler);
	for (std::string s = tn; !s.empty(); s = stdParent(s)) if (s == hn) return true;
	GlobalVariable *g = M->getNamedGlobal(tn); // user class: walk __si_class_type_info (field 2 = base)
	if (g && g->hasInitializer()) if (auto *cs = dyn_cast<ConstantStruct>(g->getInitializer())) if (cs->getNumOperands() >= 3) { std::vector<V> v; if (cs->getOperand(2)->getType()->isPointerTy()) { constLanes(cs->getOperand(2), v); return excMatches(v[0].c, handler); } }
	return false;
}
void doUnwind(u64 obj, u64 type) {
	// phase 1: is there a handler?
	bool handled = false;
	for (size_t i = g_cur->frames.size(); i-- > 0 && !handled;) {
		Frame &f = g_cur->frames[i]; DInst &d = f.f->code[f.pc]; if (d.op != O_CALL) continue; CallInfo *ci = (CallInfo *)d.x; if (!ci->unwind) continue;
		DInst &lp = f.f->code[ci->unwind->target]; if (lp.op != O_LPAD) continue; auto *x = (LPadX *)lp.x; for (auto &c : x->clauses) if (c.first == 0 && excMatches(type, c.second)) handled = true;
	}
	if (!handled) fatalViolation("exc", "uncaught exception " + demangle(typeName(type)));
	for (;;) {
		if (g_cur->frames.empty()) fatalViolation("exc", "uncaught exception");
		Frame &f = g_cur->frames.back(); DInst &d = f.f->code[f.pc];
		if (d.op == O_CALL) { CallInfo *ci = (CallInfo *)d.x; if (ci->unwind) {
			DInst &lp = f.f->code[ci->unwind->target]; auto *x = (LPadX *)lp.x; int sel = -1; for (auto &c : x->clauses) if (c.first == 0 && excMatches(type, c.second)) { sel = (int)((c.second >> 4) & 0x7ffffff) * 2 + 2; break; }
			if (sel >= 0 || x->cleanup) { takeEdge(f, *ci->unwind); DInst &l = f.f->code[f.pc]; f.regs[l.dst] = vc(obj); f.regs[l.dst + 1] = vc(sel >= 0 ? (u32)sel : 0); f.pc++; g_cur->excObj = obj; g_cur->excType = type; return; } } }
		popFrame();
	}
}
u64 typeidSel(u64 ti) { return (u32)(((ti >> 4) & 0x7ffffff) * 2 + 2); }

// ------------------------------------------------------------------------------------------------ threads
static Expr *schedChoice(u32 n) { return freshVar("sched", 8, 0, n - 1); }
static void switchTo(Thread *t) { g_cur = t; }
bool threadEnabled(Thread *t);
static void pickNext() { // current thread cannot run
	std::vector<Thread *> r; for (auto *t : g_threads) if (threadEnabled(t)) r.push_back(t);
	if (r.empty()) { bool allDone = true; for (auto *t : g_threads) if (t->state != 3) allDone = false; if (allDone) return; fatalViolation("deadlock", "deadlock: no thread can run"); }
	u64 k = r.size() == 1 ? 0 : concretize(schedChoice(r.size()));
	r[k]->state = 0; switchTo(r[k]);
}
// a scheduling point before a synchronisation operation; true if control moved to another thread
bool schedPoint() {
	if (g_threads.size() < 2) return false;
	if (g_cur->yielded) { g_cur->yielded = false; return false; }
	if (g_preemptUsed >= g_preempt) return false;
	std::vector<Thread *> r; r.push_back(g_cur); for (auto *t : g_threads) if (t != g_cur && threadEnabled(t)) r.push_back(t);
	if (r.size() == 1) return false;
	u64 k = concretize(schedChoice(r.size()));
	if (k == 0) { return false; }
	g_cur->yielded = true; g_preemptUsed++; r[k]->state = 0; switchTo(r[k]); return true;
}
struct SyncVC { std::vector<u32> v; }; static std::map<u64, SyncVC> g_sync;
static void vjoin(std::vector<u32> &a, const std::vector<u32> &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
void hbAcquire(u64 addr) { if (g_threads.size() < 2) return; vjoin(g_cur->vclock, g_sync[addr].v); }
void hbRelease(u64 addr) { if (g_threads.size() < 2) return; vjoin(g_sync[addr].v, g_cur->vclock); g_cur->vclock[g_cur->id]++; }
void hbJoinThread(Thread *t) { vjoin(g_cur->vclock, t->vclock); }
static bool isAcq(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
static bool isRel(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }

// ------------------------------------------------------------------------------------------------ main loop
static inline V binop(Kind k, const V &x, const V &y, unsigned w) { if (!x.e && !y.e) return vc(foldBin(k, x.c, y.c, w)); return fromE(mk(k, toE(x, w), toE(y, w))); }
static inline V fbinop(Kind k, const V &x, const V &y, unsigned w) { if (!x.e && !y.e) return vc(foldFP(k, w, x.c, w, y.c, 0)); return fromE(mkFP(k, w, toE(x, w), toE(y, w), 0)); }
static V icmp(unsigned p, const V &x, const V &y, unsigned w) {
	if (!x.e && !y.e) { u64 a = x.c, b = y.c; i64 s = sext64(a, w), t = sext64(b, w);
		switch (p) { case CmpInst::ICMP_EQ: return vc(a == b); case CmpInst::ICMP_NE: return vc(a != b); case CmpInst::ICMP_UGT: return vc(a > b); case CmpInst::ICMP_UGE: return vc(a >= b); case CmpInst::ICMP_ULT: return vc(a < b); case CmpInst::ICMP_ULE: return vc(a <= b); case CmpInst::ICMP_SGT: return vc(s > t); case CmpInst::ICMP_SGE: return vc(s >= t); case CmpInst::ICMP_SLT: return vc(s < t); default: return vc(s <= t); } }
	Expr *a = toE(x, w), *b = toE(y, w);
	switch (p) { case CmpInst::ICMP_EQ: return fromE(mk(EQ, a, b)); case CmpInst::ICMP_NE: return fromE(mkNot(mk(EQ, a, b))); case CmpInst::ICMP_UGT: return fromE(mk(ULT, b, a)); case CmpInst::ICMP_UGE: return fromE(mk(ULE, b, a)); case CmpInst::ICMP_ULT: return fromE(mk(ULT, a, b)); case CmpInst::ICMP_ULE: return fromE(mk(ULE, a, b)); case CmpInst::ICMP_SGT: return fromE(mk(SLT, b, a)); case CmpInst::ICMP_SGE: return fromE(mk(SLE, b, a)); case CmpInst::ICMP_SLT: return fromE(mk(SLT, a, b)); default: return fromE(mk(SLE, a, b)); }
}
static Expr *fIsNaN(Expr *a) { unsigned w = a->w; u64 inf = w == 32 ? 0x7f800000ULL : 0x7ff0000000000000ULL; return mk(ULT, mkConst(inf, w), mk(AND, a, mkConst(maskw(w - 1), w))); }
static V fcmp(unsigned p, const V &x, const V &y, unsigned w) {
	auto L = [&](Kind k, const V &a, const V &b) { if (!a.e && !b.e) return mkConst(foldFP(k, 1, a.c, w, b.c, 0), 1); return mkFP(k, 1, toE(a, w), toE(b, w), 0); };
	Expr *un = mk(OR, fIsNaN(toE(x, w)), fIsNaN(toE(y, w))); Expr *r;
	switch (p) {
	case CmpInst::FCMP_FALSE: return vc(0); case CmpInst::FCMP_TRUE: return vc(1); case CmpInst::FCMP_UNO: return fromE(un); case CmpInst::FCMP_ORD: return fromE(mkNot(un));
	case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = L(FEQ, x, y); break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = L(FLT, x, y); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = L(FLE, x, y); break;
	case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = L(FLT, y, x); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = L(FLE, y, x); break;
	case CmpInst::FCMP_ONE: return fromE(mk(AND, mkNot(L(FEQ, x, y)), mkNot(un))); default: return fromE(mkNot(L(FEQ, x, y))); // UNE
	}
	if (p >= CmpInst::FCMP_UEQ) r = mk(OR, r, un);
	return fromE(r);
}
// convert a lane array between lane widths (little endian)
void bitcastLanes(V *in, u32 nin, u32 win, V *out, u32 nout, u32 wout) {
	std::vector<V> t(nout);
	g_byteSlice = true; struct Off { ~Off() { g_byteSlice = false; } } off_;
	if (win % wout == 0) { u32 r = win / wout; for (u32 i = 0; i < nin; i++) for (u32 j = 0; j < r; j++) { V v = in[i]; if (!v.e) t[i * r + j] = vc(v.c >> (j * wout) & maskw(wout)); else t[i * r + j] = fromE(mkExtract(v.e, j * wout, wout)); } }
	else if (wout % win == 0) { u32 r = wout / win; for (u32 i = 0; i < nout; i++) { bool con = wout <= 64; if (con) for (u32 j = 0; j < r; j++) if (in[i * r + j].e) con = false; if (con) { u64 v = 0; for (u32 j = 0; j < r; j++) v |= in[i * r + j].c << (j * win); t[i] = vc(v); } else { Expr *e = nullptr; for (int j = r - 1; j >= 0; j--) { Expr *b = toE(in[i * r + j], win); e = e ? mkConcat(e, b) : b; } t[i] = fromE(e); } } }
	else { Expr *e = nullptr; for (int j = nin - 1; j >= 0; j--) { Expr *b = toE(in[j], win); e = e ? mkConcat(e, b) : b; } for (u32 i = 0; i < nout; i++) t[i] = fromE(mkExtract(e, i * wout, wout)); }
	for (u32 i = 0; i < nout; i++) out[i] = t[i];
}
V selectV(const V &c, const V &a, const V &b, unsigned w) { if (!c.e) return c.c ? a : b; if (!a.e && !b.e && a.c == b.c) return a; return fromE(mkIte(c.e, toE(a, w), toE(b, w))); }
static void doLoad(Frame &f, DInst &d, V *dst, const V &p) {
	auto &lv = *(std::vector<Leaf> *)d.x; Ref r = resolve(p, d.imm, false);
	if (g_threads.size() > 1) { if (r.soff) { r.off = concretize(r.soff); r.soff = nullptr; } raceCheck(*r.o, r.off, d.imm, false, d.sub); }
	if (lv.size() && lv[0].bytes == 0) { // vector of sub-byte elements
		unsigned w = lv[0].w, tot = w * lv.size(); V v = r.soff ? symLoad(r, d.imm, 0, d.imm, tot) : loadBytes(r, 0, d.imm, tot); bitcastLanes(&v, 1, tot, dst, lv.size(), w); return; }
	for (size_t i = 0; i < lv.size(); i++) {
		if (lv[i].fp80) { if (r.soff) { r.off = concretize(r.soff); r.soff = nullptr; } long double ld = 0; memcpy(&ld, r.o->data + r.off + lv[i].off, 10); double x = (double)ld; u64 b; memcpy(&b, &x, 8); dst[i] = vc(b); continue; }
		dst[i] = r.soff ? symLoad(r, d.imm, lv[i].off, lv[i].bytes, lv[i].w) : loadBytes(r, lv[i].off, lv[i].bytes, lv[i].w); }
}
static void doStore(DInst &d, V *src, const V &p) {
	auto &lv = *(std::vector<Leaf> *)d.x; Ref r = resolve(p, d.imm, true);
	if (g_threads.size() > 1) { if (r.soff) { r.off = concretize(r.soff); r.soff = nullptr; } raceCheck(*r.o, r.off, d.imm, true, d.sub); }
	if (lv.size() && lv[0].bytes == 0) { unsigned w = lv[0].w, tot = w * lv.size(), tb = d.imm * 8; V v; bitcastLanes(src, lv.size(), w, &v, 1, tot); if (tb > tot) v = v.e ? fromE(mkZExt(v.e, tb)) : v; if (r.soff) { r.off = concretize(r.soff); r.soff = nullptr; } storeBytes(r, 0, d.imm, tb, v); return; }
	if (r.soff) { std::vector<std::pair<Leaf, V>> vals; for (size_t i = 0; i < lv.size(); i++) vals.emplace_back(lv[i], src[i]); symStore(r, d.imm, vals); return; }
	for (size_t i = 0; i < lv.size(); i++) {
		if (lv[i].fp80) { double x; u64 b = src[i].e ? concretize(src[i].e) : src[i].c; memcpy(&x, &b, 8); long double ld = x; memcpy(r.o->data + r.off + lv[i].off, &ld, 10); continue; }
		storeBytes(r, lv[i].off, lv[i].bytes, lv[i].w, src[i]); }
}
bool g_retry = false;
static void step() {
	Frame &f = g_cur->frames.back(); DInst &d = f.f->code[f.pc]; g_icount++;
	V *R = f.regs;
	switch (d.op) {
	case O_BIN: {
		V *a = f.get(d.a), *b = f.get(d.b);
		if (d.sub >= UDIV && d.sub <= SREM) for (u32 i = 0; i < d.n; i++) { if (!b[i].e ? b[i].c == 0 : false) fatalViolation("div", "division by zero"); if (b[i].e && b[i].e->w <= 64 && b[i].e->lo == 0) if (branchOn(mk(EQ, b[i].e, mkConst(0, d.w)))) fatalViolation("div", "division by zero"); }
		for (u32 i = 0; i < d.n; i++) R[d.dst + i] = binop((Kind)d.sub, a[i], b[i], d.w); f.pc++; break; }
	case O_FBIN: { V *a = f.get(d.a), *b = f.get(d.b); unsigned w = d.w == 32 ? 32 : 64; for (u32 i = 0; i < d.n; i++) R[d.dst + i] = fbinop((Kind)d.sub, a[i], b[i], w); f.pc++; break; }
	case O_FNEG: { V *a = f.get(d.a); unsigned w = d.w == 32 ? 32 : 64; for (u32 i = 0; i < d.n; i++) R[d.dst + i] = binop(XOR, a[i], vc(1ULL << (w - 1)), w); f.pc++; break; }
	case O_ICMP: { V *a = f.get(d.a), *b = f.get(d.b); for (u32 i = 0; i < d.n; i++) R[d.dst + i] = icmp(d.sub, a[i], b[i], d.w); f.pc++; break; }
	case O_FCMP: { V *a = f.get(d.a), *b = f.get(d.b); for (u32 i = 0; i < d.n; i++) R[d.dst + i] = fcmp(d.sub, a[i], b[i], d.w); f.pc++; break; }
	case O_SEL: {
		V *c = f.get(d.a), *a = f.get(d.b), *b = f.get(d.c);
		if (d.imm) { for (u32 i = 0; i < d.n; i++) R[d.dst + i] = selectV(c[i], a[i], b[i], d.w); }
		else if (!c->e) { V *s = c->c ? a : b; for (u32 i = 0; i < d.n; i++) R[d.dst + i] = s[i]; }
		else if (d.w == 0) { bool t = branchOn(c->e); V *s = t ? a : b; for (u32 i = 0; i < d.n; i++) R[d.dst + i] = s[i]; }
		else { V cc = *c; // pointers into different objects: fork rather than build an ite of addresses
			if (d.n == 1 && d.w == 64 && d.I->getType()->isPointerTy() && !a->e && !b->e && (a->c >> 32) != (b->c >> 32)) { bool t = branchOn(cc.e); R[d.dst] = t ? *a : *b; }
			else for (u32 i = 0; i < d.n; i++) R[d.dst + i] = selectV(cc, a[i], b[i], d.w); }
		f.pc++; break; }
	case O_LOAD: {
		if (d.sub) { if (schedPoint()) return; }
		V p = *f.get(d.a); doLoad(f, d, R + d.dst, p);
		if (d.sub && g_threads.size() > 1 && isAcq(cast<LoadInst>(d.I)->getOrdering())) hbAcquire(p.e ? evalExpr(p.e) : p.c);
		f.pc++; break; }
	case O_STORE: {
		if (d.sub) { if (schedPoint()) return; }
		V p = *f.get(d.b); doStore(d, f.get(d.a), p);
		if (d.sub && g_threads.size() > 1 && isRel(cast<StoreInst>(d.I)->getOrdering())) { u64 a = p.e ? evalExpr(p.e) : p.c; g_sync[a].v.clear(); hbRelease(a); }
		f.pc++; break; }
	case O_GEP: {
		auto *x = (GepX *)d.x; V *b = f.get(d.a);
		for (u32 l = 0; l < d.n; l++) {
			V r = b[d.sub ? l : 0]; r = binop(ADD, r, vc(d.imm), 64);
			for (auto &t : x->idx) { V ix = f.get(std::get<0>(t))[std::get<3>(t) > 1 ? l : 0]; unsigned w = std::get<2>(t); u64 s = std::get<1>(t);
				if (!ix.e) r = binop(ADD, r, vc((u64)sext64(ix.c, w) * s), 64);
				else { Expr *e = w < 64 ? mkSExt(ix.e, 64) : ix.e; r = binop(ADD, r, fromE(mk(MUL, e, mkConst(s, 64))), 64); } }
			R[d.dst + l] = r;
		}
		f.pc++; break; }
	case O_TRUNC: { V *a = f.get(d.a); for (u32 i = 0; i < d.n; i++) R[d.dst + i] = a[i].e ? fromE(mkExtract(a[i].e, 0, d.w)) : vc(a[i].c & maskw(d.w)); f.pc++; break; }
	case O_ZEXT: { V *a = f.get(d.a); for (u32 i = 0; i < d.n; i++) R[d.dst + i] = a[i].e || d.w > 64 ? fromE(mkZExt(toE(a[i], d.imm), d.w)) : a[i]; f.pc++; break; }
	case O_SEXT: { V *a = f.get(d.a); for (u32 i = 0; i < d.n; i++) R[d.dst + i] = a[i].e || d.w > 64 ? fromE(mkSExt(toE(a[i], d.imm), d.w)) : vc((u64)sext64(a[i].c, d.imm) & maskw(d.w)); f.pc++; break; }
	case O_BITCAST: { bitcastLanes(f.get(d.a), d.b, d.imm, R + d.dst, d.n, d.w); f.pc++; break; }
	case O_COPY: { V *a = f.get(d.a); for (u32 i = 0; i < d.n; i++) R[d.dst + i] = a[i]; f.pc++; break; }
	case O_FPCONV: { V *a = f.get(d.a); for (u32 i = 0; i < d.n; i++) { if (d.w == d.imm) R[d.dst + i] = a[i]; else R[d.dst + i] = a[i].e ? fromE(mkFP(FCONV, d.w, a[i].e, nullptr, 0)) : vc(foldFP(FCONV, d.w, a[i].c, d.imm, 0, 0)); } f.pc++; break; }
	case O_FPTOI: { V *a = f.get(d.a); for (u32 i = 0; i < d.n; i++) R[d.dst + i] = a[i].e ? fromE(mkFP((Kind)d.sub, d.w, a[i].e, nullptr, 0)) : vc(foldFP((Kind)d.sub, d.w, a[i].c, d.imm, 0, 0)); f.pc++; break; }
	case O_ITOFP: { V *a = f.get(d.a); for (u32 i = 0; i < d.n; i++) R[d.dst + i] = a[i].e ? fromE(mkFP((Kind)d.sub, d.w, a[i].e, nullptr, 0)) : vc(foldFP((Kind)d.sub, d.w, a[i].c, d.imm, 0, 0)); f.pc++; break; }
	case O_JMP: takeEdge(f, ((Edge *)d.x)[0]); break;
	case O_BR: { V c = *f.get(d.a); bool t = c.e ? branchOn(c.e) : (c.c & 1); takeEdge(f, ((Edge *)d.x)[t ? 0 : 1]); break; }
	case O_SWITCH: {
		auto *x = (SwX *)d.x; V c = *f.get(d.a);
		if (!c.e) { for (auto &p : x->cases) if (p.first == c.c) { takeEdge(f, p.second); return; } takeEdge(f, x->def); return; }
		// group the cases that lead to the same block
		u64 mv = evalExpr(c.e);
		std::map<u32, std::pair<Edge *, Expr *>> g; for (auto &p : x->cases) { Expr *q = mk(EQ, c.e, mkConst(p.first, d.w)); auto &s = g[p.second.bb]; bool samePhi = true; if (s.first) { for (size_t i = 0; i < p.second.moves.size(); i++) if (p.second.moves[i].src != s.first->moves[i].src) samePhi = false; } if (!s.first) { s.first = &p.second; s.second = q; } else if (samePhi) s.second = mk(OR, s.second, q); else { if (branchOn(q)) { takeEdge(f, p.second); return; } } }
		(void)mv;
		// test the group that the current model is in last so that others are forked off
		for (auto &p : g) if (branchOn(p.second.second)) { takeEdge(f, *p.second.first); return; }
		takeEdge(f, x->def); break; }
	case O_RET: doReturn(d.n ? f.get(d.a) : nullptr, d.n); break;
	case O_CALL: {
		auto *ci = (CallInfo *)d.x; Function *F = ci->F;
		if (d.sub) { auto *ia = cast<InlineAsm>(ci->I->getCalledOperand()); if (ia->getAsmString().empty() || ci->n == 0) { f.pc++; return; } incompletePath("inline asm " + ia->getAsmString()); }
		if (!F) { V c = *f.get(ci->callee); u64 a = c.e ? concretize(c.e) : c.c; auto it = g_fnAt.find(a); if (it == g_fnAt.end()) fatalViolation("mem", "call through a bad function pointer"); F = it->second; }
		if (F->isDeclaration()) {
			Builtin b = F == ci->F ? ci->b : nullptr; if (!b) { b = findBuiltin(F->getName().str()); if (!b) incompletePath("unmodelled function " + F->getName().str()); if (F == ci->F) ci->b = b; }
			g_retry = false; Thread *me = g_cur; size_t depth = me->frames.size(); u32 pc = f.pc; Frame *fp = &f; (void)fp;
			b(*ci, f);
			if (g_retry) { g_retry = false; return; }
			if (me->frames.size() != depth || me->frames.back().pc != pc) return; // builtin moved control itself
			Frame &g = me->frames.back(); if (ci->normal) takeEdge(g, *ci->normal); else g.pc++; return;
		}
		std::vector<V> args; args.reserve(ci->args.size());
		for (size_t i = 0; i < ci->args.size(); i++) { V *v = f.get(ci->args[i]);
			if (ci->byval[i]) { u32 id = newObj(ci->byval[i], OK_STACK, "byval", 16); f.allocas.push_back(id); memCopy(vc(g_objs[id].base), *v, ci->byval[i], false); args.push_back(vc(g_objs[id].base)); continue; }
			for (u32 j = 0; j < ci->argn[i]; j++) args.push_back(v[j]); }
		pushCall(F, ci, args); break; }
	case O_ALLOCA: { V n = *f.get(d.a); u64 cnt = n.e ? concretize(n.e) : n.c; u32 id = newObj(cnt * d.imm, OK_STACK, "stack", d.b); f.allocas.push_back(id); R[d.dst] = vc(g_objs[id].base); f.pc++; break; }
	case O_EXTRACTV: { V *a = f.get(d.a) + d.imm; for (u32 i = 0; i < d.n; i++) R[d.dst + i] = a[i]; f.pc++; break; }
	case O_INSERTV: { V *a = f.get(d.a), *b = f.get(d.b); for (u32 i = 0; i < d.n; i++) R[d.dst + i] = a[i]; for (int i = 0; i < d.c; i++) R[d.dst + d.imm + i] = b[i]; f.pc++; break; }
	case O_EXTRACTE: { V *a = f.get(d.a), ix = *f.get(d.b); if (!ix.e) R[d.dst] = ix.c < d.imm ? a[ix.c] : vc(0); else { Expr *e = toE(a[0], d.w); for (u32 i = 1; i < d.imm; i++) e = mkIte(mk(EQ, ix.e, mkConst(i, ix.e->w)), toE(a[i], d.w), e); R[d.dst] = fromE(e); } f.pc++; break; }
	case O_INSERTE: { V *a = f.get(d.a), b = *f.get(d.b), ix = *f.get(d.c); if (!ix.e) { for (u32 i = 0; i < d.n; i++) R[d.dst + i] = i == ix.c ? b : a[i]; } else for (u32 i = 0; i < d.n; i++) R[d.dst + i] = fromE(mkIte(mk(EQ, ix.e, mkConst(i, ix.e->w)), toE(b, d.w), toE(a[i], d.w))); f.pc++; break; }
	case O_SHUF: { auto &m = *(std::vector<int> *)d.x; V *a = f.get(d.a), *b = f.get(d.b); std::vector<V> t(d.n); for (u32 i = 0; i < d.n; i++) t[i] = m[i] < 0 ? (d.w > 64 ? fromE(mkConst(0, d.w)) : vc(0)) : (u64)m[i] < d.imm ? a[m[i]] : b[m[i] - d.imm]; for (u32 i = 0; i < d.n; i++) R[d.dst + i] = t[i]; f.pc++; break; }
	case O_RMW: {
		if (schedPoint()) return;
		V p = *f.get(d.a), v = *f.get(d.b); unsigned by = (d.w + 7) / 8; Ref r = resolve(p, by, true); if (r.soff) { r.off = concretize(r.soff); r.soff = nullptr; }
		if (g_threads.size() > 1) { auto o = cast<AtomicRMWInst>(d.I)->getOrdering(); u64 a = r.o->base + r.off; raceCheck(*r.o, r.off, by, true, true); if (isAcq(o)) hbAcquire(a); if (isRel(o)) hbRelease(a); }
		V old = loadBytes(r, 0, by, d.w), nv;
		switch (d.sub) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(ADD, old, v, d.w); break; case AtomicRMWInst::Sub: nv = binop(SUB, old, v, d.w); break; case AtomicRMWInst::And: nv = binop(AND, old, v, d.w); break; case AtomicRMWInst::Or: nv = binop(OR, old, v, d.w); break; case AtomicRMWInst::Xor: nv = binop(XOR, old, v, d.w); break;
			case AtomicRMWInst::UMax: nv = selectV(icmp(CmpInst::ICMP_UGT, old, v, d.w), old, v, d.w); break; case AtomicRMWInst::UMin: nv = selectV(icmp(CmpInst::ICMP_ULT, old, v, d.w), old, v, d.w); break; case AtomicRMWInst::Max: nv = selectV(icmp(CmpInst::ICMP_SGT, old, v, d.w), old, v, d.w); break; case AtomicRMWInst::Min: nv = selectV(icmp(CmpInst::ICMP_SLT, old, v, d.w), old, v, d.w); break; default: incompletePath("atomicrmw op"); }
		storeBytes(r, 0, by, d.w, nv); R[d.dst] = old; f.pc++; break; }
	case O_CAS: {
		if (schedPoint()) return;
		V p = *f.get(d.a), c = *f.get(d.b), n = *f.get(d.c); unsigned by = (d.w + 7) / 8; Ref r = resolve(p, by, true); if (r.soff) { r.off = concretize(r.soff); r.soff = nullptr; }
		V old = loadBytes(r, 0, by, d.w); V eq = icmp(CmpInst::ICMP_EQ, old, c, d.w); bool ok = eq.e ? branchOn(eq.e) : eq.c;
		if (g_threads.size() > 1) { auto *x = cast<AtomicCmpXchgInst>(d.I); u64 a = r.o->base + r.off; raceCheck(*r.o, r.off, by, ok, true); if (isAcq(ok ? x->getSuccessOrdering() : x->getFailureOrdering())) hbAcquire(a); if (ok && isRel(x->getSuccessOrdering())) hbRelease(a); }
		if (ok) storeBytes(r, 0, by, d.w, n); R[d.dst] = old; R[d.dst + 1] = vc(ok); f.pc++; break; }
	case O_FENCE: f.pc++; break;
	case O_LPAD: f.pc++; break;
	case O_RESUME: { V *a = f.get(d.a); u64 o = a[0].c; u64 ty = g_cur->excType; popFrame(); if (g_cur->frames.empty()) fatalViolation("exc", "uncaught exception"); doUnwind(o, ty); break; }
	case O_UNREACH: fatalViolation("unreachable", "reached unreachable code (undefined behaviour)");
	default: { std::string s; raw_string_ostream os(s); d.I->print(os); incompletePath("unsupported instruction " + s); }
	}
}
static void runAll() {
	u64 nextCheck = 0;
	for (;;) {
		if (g_cur->state != 0) {
			if (g_cur->state == 3) { bool done = true; for (auto *t : g_threads) if (t->state != 3) done = false; if (done || g_cur->id == 0) return; }
			pickNext(); continue; }
		if (g_trace) { Frame &f0 = g_cur->frames.back(); size_t dep = g_cur->frames.size(); u32 pc = f0.pc; const DInst d0 = f0.f->code[pc]; Thread *th = g_cur; step();
			if (th == g_cur && g_cur->frames.size() == dep && d0.dst >= 0) { Frame &f1 = g_cur->frames.back(); fprintf(g_trace, "%s:%u", f1.f->F->getName().str().substr(0, 60).c_str(), pc); unsigned w = 0; for (u32 k = 0; k < (d0.n ? d0.n : 1) && k < 64; k++) { V v = f1.regs[d0.dst + k]; u64 x = v.e ? (v.e->w <= 64 ? evalExpr(v.e) : 0) : v.c; fprintf(g_trace, " %llx", (unsigned long long)x); } fprintf(g_trace, "  %s\n", curLoc().c_str()); } }
		else step();
		if (g_icount >= nextCheck) { nextCheck = g_icount + 20000; if (S->stop) finishPath(2); if (g_icount > g_maxInstr) { if (g_threads.size() == 1) recordViolation("hang", "terminates", g_model); incompletePath("instruction budget"); } if (g_deadline && now() > g_deadline) incompletePath("time budget"); }
	}
}
void runToCompletion(Function *F, const std::vector<V> &args) { pushCall(F, nullptr, args); g_cur->state = 0; runAll(); }

// ------------------------------------------------------------------------------------------------ startup
static void setupGlobals() {
	g_objs.emplace_back(); memset((void *)&g_objs[0], 0, sizeof(Obj)); g_objs[0].flags = OK_DEAD;
	for (auto &F : *M) globalAddr(&F);
	for (auto &G : M->globals()) {
		if (G.getName().starts_with("llvm.")) continue;
		u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 16; if (G.isDeclaration() && sz < 64) sz = 64;
		u32 id = newObj(sz, OK_GLOBAL, strdup(G.getName().str().c_str()), std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 1)); g_addr[&G] = g_objs[id].base;
	}
	for (auto &G : M->globals()) { auto it = g_addr.find(&G); if (it == g_addr.end()) continue; Obj &o = g_objs[it->second >> 32]; if (G.hasInitializer()) storeConst(o.data, G.getInitializer()); if (G.isConstant()) o.flags |= OK_RO; }
}
int main(int argc, char **argv) {
	struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
	if (!getenv("SYMEX_STACK")) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 1ULL << 30); setrlimit(RLIMIT_STACK, &rl); setenv("SYMEX_STACK", "1", 1); execv("/proc/self/exe", argv); }
	std::string file, entry = "harness"; int jobs = 1; double tlimit = 0;
	for (int i = 1; i < argc; i++) { std::string a = argv[i];
		if (a == "-o") g_outdir = argv[++i]; else if (a == "-j") jobs = atoi(argv[++i]); else if (a == "-t") tlimit = atof(argv[++i]); else if (a == "-q") g_qtimeout = atof(argv[++i]); else if (a == "-v") g_verbose = true; else if (a == "--trace") g_trace = fopen(argv[++i], "w"); else if (a == "--replay" || a == "--guide") { g_replaying = true; g_guiding = a == "--guide"; FILE *f = fopen(argv[++i], "r"); char ln[600], nm[300]; unsigned w; unsigned long long v; while (f && fgets(ln, sizeof ln, f)) if (sscanf(ln, "in %299s %u %llx", nm, &w, &v) == 3) g_replayIn.emplace_back(nm, v); if (f) fclose(f); } else if (a == "--entry") entry = argv[++i];
		else if (a == "--arg") { std::string kv = argv[++i]; size_t p = kv.find('='); g_args[kv.substr(0, p)] = kv.substr(p + 1); } else if (a == "--samples") g_maxSamples = atoi(argv[++i]); else if (a == "--seed") g_sampleSeed = atoi(argv[++i]); else if (a == "--preempt") g_preempt = atoi(argv[++i]); else if (a == "--maxinstr") g_maxInstr = strtoull(argv[++i], 0, 10); else if (a == "--wspan") g_writeSpan = strtoull(argv[++i], 0, 10); else if (a == "--rspan") g_muxSpan = strtoull(argv[++i], 0, 10); else if (a == "--norace") g_races = false; else file = a; }
	double t0 = now(); LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(file, err, ctx); if (!mod) { err.print(argv[0], errs()); return 2; } M = mod.get(); DL = &M->getDataLayout();
	S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (S) Shared(); S->tokens = jobs - 1; S->started = 1;
	g_nbb = 0; for (auto &F : *M) if (!F.isDeclaration()) { g_bbBase[&F] = g_nbb; g_nbb += F.size(); }
	g_cov = (std::atomic<u8> *)mmap(nullptr, g_nbb + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_forkAt = (std::atomic<u32> *)mmap(nullptr, (g_nbb + 64) * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Function *E = M->getFunction(entry); if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
	prctl(PR_SET_CHILD_SUBREAPER, 1); if (tlimit) g_deadline = now() + tlimit; setpgid(0, 0);
	pid_t main_pid = fork();
	if (main_pid == 0) {
		Z3_config cfg = Z3_mk_config(); g_ctx = Z3_mk_context(cfg); Z3_set_error_handler(g_ctx, z3err); signal(SIGALRM, onAlarm); g_solver = makeSolver(false);
		g_cur = new Thread(); g_cur->id = 0; g_cur->vclock = {1}; g_threads.push_back(g_cur);
		setupGlobals();
		if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64, Function *>> v; for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.emplace_back(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn); } std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &p : v) runToCompletion(p.second, {}); }
		runToCompletion(E, {}); finishPath(0);
	}
	// the root process waits for everything (it is the subreaper), enforcing the deadline
	bool timedout = false; double tk = 0;
	for (;;) { int st; pid_t r = waitpid(-1, &st, WNOHANG); if (r < 0 && errno == ECHILD) break; if (r > 0) { if (WIFSIGNALED(st)) { S->crashed++; S->ended++; } continue; } usleep(2000); if (g_deadline && now() > g_deadline + 3) { if (!timedout) { timedout = true; tk = now(); S->stop = 1; } if (now() > tk + 5) { signal(SIGTERM, SIG_IGN); FILE *p = popen("ps -eo pid,pgid", "r"); char b[200]; std::vector<int> ks; while (p && fgets(b, sizeof b, p)) { int a, g; if (sscanf(b, "%d %d", &a, &g) == 2 && g == getpgrp() && a != getpid()) ks.push_back(a); } if (p) pclose(p); for (int k : ks) kill(k, SIGKILL); S->killed += 1; tk = now() + 5; } } }
	// report
	std::string rep = g_outdir + "/report.json"; FILE *o = fopen(rep.c_str(), "w"); if (!o) { perror(rep.c_str()); return 2; }
	auto J = [&](const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((u8)c < 32) { r += ' '; continue; } r += c; } return r; };
	fprintf(o, "{\"wall\":%.3f,\"paths\":%llu,\"infeasible\":%llu,\"incomplete\":%llu,\"crashed\":%llu,\"started\":%llu,\"ended\":%llu,\"instrs\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"asserts\":%llu,\"asserts_concrete\":%llu,\"violations\":%llu,\"maxvars\":%llu,\"timedout\":%s,\n", now() - t0, (unsigned long long)S->paths, (unsigned long long)S->infeasible, (unsigned long long)S->incomplete, (unsigned long long)S->crashed, (unsigned long long)S->started, (unsigned long long)S->ended, (unsigned long long)S->instrs, (unsigned long long)S->forks, (unsigned long long)S->queries, (unsigned long long)S->qsat, (unsigned long long)S->qunsat, (unsigned long long)S->qunknown, S->qns * 1e-9, S->qmaxns * 1e-9, (unsigned long long)S->asserts, (unsigned long long)S->assertsConcrete, (unsigned long long)S->violations, (unsigned long long)S->maxvars, timedout ? "true" : "false");
	fprintf(o, "\"reach\":{"); for (u32 i = 0; i < S->reachN && i < 128; i++) fprintf(o, "%s\"%s\":%llu", i ? "," : "", J(S->reachName[i]).c_str(), (unsigned long long)S->reachCount[i]); fprintf(o, "},\n\"incomplete_reasons\":["); for (u32 i = 0; i < S->incKeys && i < 64; i++) fprintf(o, "%s\"%s\"", i ? "," : "", J(S->incMsg[i]).c_str());
	// functions of /repo covered: executed blocks' debug locations
	std::map<std::string, std::pair<u64, u64>> fn; std::map<std::string, u64> forks; u64 covbb = 0;
	for (auto &F : *M) if (!F.isDeclaration()) { u32 b = g_bbBase[&F], k = 0; for (auto &B : F) { bool c = g_cov[b + k]; covbb += c; std::set<std::string> here; for (auto &I : B) for (const DILocation *L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) { if (auto *sp = L->getScope()->getSubprogram()) { std::string fl = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (sp->getFilename().starts_with("/")) fl = sp->getFilename().str(); if (fl.find("/repo/") != std::string::npos) { std::string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); here.insert(shortFile(fl) + ":" + n); } } } for (auto &s : here) { fn[s].second++; if (c) fn[s].first++; }
		if (g_forkAt[b + k]) { std::string l = F.getName().str(); const DILocation *D = nullptr; if (auto *T = B.getTerminator()) D = T->getDebugLoc().get(); if (D) { char q[400]; snprintf(q, sizeof q, "%s:%u", shortFile(D->getFilename()).c_str(), D->getLine()); l = q; while (D->getInlinedAt()) { D = D->getInlinedAt(); snprintf(q, sizeof q, " <- %s:%u", shortFile(D->getFilename()).c_str(), D->getLine()); l += q; } } forks[l] += g_forkAt[b + k]; }
		k++; } }
	fprintf(o, "],\n\"blocks\":%llu,\"functions\":{", (unsigned long long)covbb); bool first = true; for (auto &p : fn) if (p.second.first) { fprintf(o, "%s\"%s\":[%llu,%llu]", first ? "" : ",\n", J(p.first).c_str(), (unsigned long long)p.second.first, (unsigned long long)p.second.second); first = false; }
	fprintf(o, "},\n\"forks_at\":["); std::vector<std::pair<u64, std::string>> fv; for (auto &p : forks) fv.emplace_back(p.second, p.first); std::sort(fv.rbegin(), fv.rend()); for (size_t i = 0; i < fv.size() && i < 25; i++) fprintf(o, "%s[%llu,\"%s\"]", i ? ",\n" : "", (unsigned long long)fv[i].first, J(fv[i].second).c_str()); fprintf(o, "]}\n"); fclose(o);
	return 0;
}
