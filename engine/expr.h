// Hash-consed bit-vector expression DAG with constant folding, local simplification, evaluation and z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallString.h>
#include <z3.h>
using llvm::APInt;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Kind : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE,
	FADD, FSUB, FMUL, FDIV, FSQRT, FLT, FLE, FEQ, FCONV, SITOFP, UITOFP, FPTOSI, FPTOUI, FRND };
// FRND aux: 0 floor 1 ceil 2 trunc 3 round-to-nearest-even 4 round-half-away

struct Expr {
	Kind k; bool fp; uint16_t w; u32 aux;
	u32 id; u32 estamp;
	u64 c;                 // CONST (w<=64) value; VAR: var index
	Expr *a, *b, *d;
	u64 kz, ko;            // known zero / known one (w<=64)
	u64 lo, hi;            // unsigned range (w<=64)
	u64 eval;
	APInt *big;            // CONST, w>64
	Z3_ast z;
	Expr *next;            // hash chain
	u64 hash;
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sext64(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w)) >> (64 - w)); }
static inline u64 fillbelow(u64 v) { v|=v>>1; v|=v>>2; v|=v>>4; v|=v>>8; v|=v>>16; v|=v>>32; return v; }

struct VarInfo { std::string name; unsigned w; u64 lo, hi; };

extern std::vector<VarInfo> g_vars;
extern std::vector<u64> g_model;       // current satisfying assignment
extern u32 g_stamp;                    // current model stamp (for eval memo)
extern bool g_nosimplify, g_byteSlice;

Expr *mkConst(u64 v, unsigned w);
Expr *mkBig(const APInt &v);
Expr *mkVar(const std::string &name, unsigned w, u64 lo = 0, u64 hi = ~0ULL);
Expr *mk(Kind k, Expr *a, Expr *b);            // binary
Expr *mkIte(Expr *c, Expr *t, Expr *e);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkNot(Expr *a);                          // width-1 or bitwise
Expr *mkFP(Kind k, unsigned w, Expr *a, Expr *b, u32 aux);
u64 evalExpr(Expr *e);                         // under g_model; w<=64
APInt evalBig(Expr *e);
Z3_ast toZ3(Expr *e);
std::string exprStr(Expr *e, int depth = 6);
u64 foldBin(Kind k, u64 a, u64 b, unsigned w);
u64 foldFP(Kind k, unsigned w, u64 a, unsigned wa, u64 b, u32 aux);
extern Z3_context g_ctx;
extern u64 g_nexpr;
