// Shared declarations of the symbolic executor.
#pragma once
#include "expr.h"
#include <atomic>
#include <set>
#include <map>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>

struct V { u64 c; Expr *e; };
static inline V vc(u64 c) { return V{c, nullptr}; }
static inline V fromE(Expr *e) { if (e->k == CONST && e->w <= 64) return V{e->c, nullptr}; return V{0, e}; }
static inline Expr *toE(const V &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

struct Leaf { u32 off; uint16_t w; u8 fp80; u8 bytes; };

// ---- shared (across forked processes) statistics and control
struct KeyRec { std::atomic<u64> hash; std::atomic<u32> count; };
struct Shared {
	std::atomic<int> tokens;
	std::atomic<int> stop;                // 1: stop everything
	std::atomic<u64> started, ended, crashed;
	std::atomic<u64> paths, infeasible, instrs, forks, queries, qsat, qunsat, qunknown, qns, asserts, assertsConcrete, incomplete, violations, samples, maxvars, qmaxns, killed;
	std::atomic<u32> slotNext;
	KeyRec vkeys[256];
	std::atomic<u32> incKeys;
	std::atomic<u32> reachN;
	char reachName[128][64]; std::atomic<u64> reachCount[128];
	std::atomic<u32> reachLock;
	char incMsg[64][256];
	std::atomic<u32> slots[1 << 20];
};
extern Shared *S;
extern std::atomic<u8> *g_cov; extern std::atomic<u32> *g_forkAt;

// ---- memory objects
enum { OK_HEAP = 1, OK_STACK = 2, OK_GLOBAL = 4, OK_RO = 8, OK_DEAD = 16, OK_TLS = 32, OK_MMAP = 64 };
struct Obj { u8 *data; u64 size; u64 base; u32 flags; u32 nsym; Expr ***chunks; const char *name; u32 allocator; std::vector<struct Shadow> *shadow; };
struct Shadow { u32 wclk; u32 wtid; u32 rclk[6]; u8 watomic; };

struct CallInfo; struct Frame; struct Thread;
typedef void (*Builtin)(CallInfo &, Frame &);
struct Edge { u32 target; u32 bb; struct Mv { int dst, src; u32 n; }; std::vector<Mv> moves; bool overlap; };
struct CallInfo {
	llvm::Function *F; Builtin b; std::vector<int> args; std::vector<u32> argn; std::vector<uint16_t> argw; std::vector<u64> byval; int callee; u32 w, n; int dst; Edge *normal, *unwind; llvm::CallBase *I; u64 aux;
	std::vector<bool> argfp;
};
struct DInst { u8 op; u8 sub; uint16_t w; u32 n; int dst, a, b, c; void *x; llvm::Instruction *I; u64 imm; };
struct DFunc { llvm::Function *F; std::vector<DInst> code; std::vector<V> consts; u32 nregs; std::vector<u32> paramSlot; std::vector<u32> blockStart; u32 bbBase; };
struct Frame { DFunc *f; u32 pc; V *regs; CallInfo *call; std::vector<u32> allocas; u64 vaArea; std::vector<V> varargs; std::vector<uint16_t> varw; std::vector<bool> varfp;
	V *get(int r) { return r >= 0 ? regs + r : f->consts.data() + (~r); } };

struct CaughtExc { u64 obj; };
struct Thread {
	std::vector<Frame> frames; int id; int state; // 0 runnable 1 blocked-join 2 blocked-mutex 3 finished 4 blocked-cond
	u64 waitOn; V retval;
	u64 excObj; u64 excType; // in flight
	std::vector<u64> caught; u32 uncaught;
	std::vector<u32> vclock; bool detached;
	std::map<u64, u64> tls;
	bool yielded;
};

[[noreturn]] void finishPath(int status);            // 0 complete, 1 infeasible/assumed away, 2 incomplete, 3 violation
[[noreturn]] void incompletePath(const std::string &why);
void violation(const std::string &kind, const std::string &tag);  // records; does not end the path
[[noreturn]] void fatalViolation(const std::string &kind, const std::string &tag);
bool branchOn(Expr *c);                   // may fork; returns the direction taken by this process
void assume(Expr *c);
u64 concretize(Expr *e, unsigned limit = 4096);
int solve(Expr *extra);                   // 1 sat (g_qmodel filled) 0 unsat -1 unknown
extern std::vector<u64> g_qmodel;
void assertPC(Expr *c);
Expr *freshVar(const std::string &name, unsigned w, u64 lo, u64 hi);

u32 newObj(u64 size, u32 flags, const char *name, u64 align);
void freeObj(u32 id);
Obj *lookupObj(u64 addr);
extern std::vector<Obj> g_objs;
struct Ref { Obj *o; u64 off; Expr *soff; };
Ref resolve(const V &p, u64 size, bool write);
V loadBytes(const Ref &r, u64 off, unsigned bytes, unsigned w);
void storeBytes(const Ref &r, u64 off, unsigned bytes, unsigned w, V v);
void memCopy(const V &dst, const V &src, u64 n, bool overlapOK);
void memSet(const V &dst, const V &val, u64 n);
Builtin findBuiltin(const std::string &name);
std::string curLoc();
std::string readCStr(const V &p);
extern Thread *g_cur; extern std::vector<Thread *> g_threads;
extern u64 g_icount;
extern std::vector<V> g_outs;
extern std::map<std::string, std::string> g_args;
extern llvm::Module *M; extern const llvm::DataLayout *DL;
u64 globalAddr(llvm::GlobalValue *g);
void throwStd(const char *typeinfo);
void doUnwind(u64 obj, u64 type);
void pushCall(llvm::Function *F, CallInfo *ci, const std::vector<V> &args);
extern bool g_junk; extern bool g_verbose;
