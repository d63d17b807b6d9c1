// Models of LLVM intrinsics, libc/libstdc++ primitives, threads and the harness API.
#include "engine.h"
#include <llvm/IR/InlineAsm.h>
#include <llvm/Demangle/Demangle.h>
#include <cxxabi.h>
#include <functional>
using namespace llvm;
extern bool g_retry; bool schedPoint(); void hbAcquire(u64); void hbRelease(u64); void hbJoinThread(Thread *); bool threadEnabled(Thread *t); u64 typeidSel(u64); void bitcastLanes(V *in, u32 nin, u32 win, V *out, u32 nout, u32 wout); V selectV(const V &c, const V &a, const V &b, unsigned w);

static std::unordered_map<std::string, Builtin> &reg() { static std::unordered_map<std::string, Builtin> r; return r; }
static std::vector<std::pair<std::string, Builtin>> &preg() { static std::vector<std::pair<std::string, Builtin>> r; return r; }
struct Reg { Reg(const char *n, Builtin b, bool prefix = false) { if (prefix) preg().emplace_back(n, b); else reg()[n] = b; } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define B1(name) static void CAT(bi_, __LINE__)(CallInfo &ci, Frame &f); static Reg CAT(rg_, __LINE__)(name, CAT(bi_, __LINE__)); static void CAT(bi_, __LINE__)(CallInfo &ci, Frame &f)
#define BP(name) static void CAT(bi_, __LINE__)(CallInfo &ci, Frame &f); static Reg CAT(rg_, __LINE__)(name, CAT(bi_, __LINE__), true); static void CAT(bi_, __LINE__)(CallInfo &ci, Frame &f)
#define ALIAS(name, fn) static Reg CAT(ra_, __LINE__)(name, fn)
#define ARG(i) (f.get(ci.args[i]))
#define A0(i) (f.get(ci.args[i])[0])
#define RET(v) do { V _v = (v); if (ci.n) f.regs[ci.dst] = _v; } while (0)
Builtin findBuiltin(const std::string &n) {
	auto it = reg().find(n); if (it != reg().end()) return it->second;
	Builtin best = nullptr; size_t bl = 0; for (auto &p : preg()) if (n.compare(0, p.first.size(), p.first) == 0 && p.first.size() > bl) { best = p.second; bl = p.first.size(); }
	return best;
}
static u64 conc(const V &v) { return v.e ? concretize(v.e) : v.c; }
static V bin(Kind k, V a, V b, unsigned w) { if (!a.e && !b.e) return vc(foldBin(k, a.c, b.c, w)); return fromE(mk(k, toE(a, w), toE(b, w))); }
static V iteV(V c, V a, V b, unsigned w) { return selectV(c, a, b, w); }
static void nop(CallInfo &ci, Frame &f) {}
static void ret0(CallInfo &ci, Frame &f) { if (ci.n) f.regs[ci.dst] = vc(0); }
static void copy0(CallInfo &ci, Frame &f) { V *a = ARG(0); for (u32 i = 0; i < ci.n; i++) f.regs[ci.dst + i] = a[i]; }

// ---------------------------------------------------------------- LLVM intrinsics: no effect
static Reg n1("llvm.lifetime.", nop, true), n2("llvm.dbg.", nop, true), n3("llvm.assume", nop), n4("llvm.experimental.noalias.scope.decl", nop), n5("llvm.prefetch", nop, true), n6("llvm.sideeffect", nop), n7("llvm.stackrestore", nop, true), n8("llvm.invariant.", ret0, true), n9("llvm.donothing", nop), n10("llvm.va_end", nop, true);
static Reg n11("llvm.expect.", copy0, true), n12("llvm.launder.", copy0, true), n13("llvm.strip.", copy0, true), n14("llvm.ssa.copy", copy0, true), n15("llvm.stacksave", ret0, true), n16("llvm.annotation.", copy0, true), n17("llvm.threadlocal.address", copy0, true), n18("llvm.is.constant", ret0, true), n19("llvm.x86.sse2.pause", nop), n20("llvm.x86.sse2.mfence", nop), n21("llvm.x86.sse.sfence", nop), n22("llvm.x86.avx.vzeroupper", nop), n23("llvm.x86.avx.vzeroall", nop);
BP("llvm.objectsize.") { RET(vc(~0ULL & maskw(ci.w))); }
B1("llvm.trap") { fatalViolation("trap", "trap"); }
B1("llvm.debugtrap") { fatalViolation("trap", "trap"); }
B1("llvm.x86.rdtsc") { static u64 t = 1000; RET(vc(t += 100)); }
B1("llvm.readcyclecounter") { static u64 t = 1000; RET(vc(t += 100)); }
BP("llvm.memcpy.") { memCopy(A0(0), A0(1), conc(A0(2)), false); }
BP("llvm.memmove.") { memCopy(A0(0), A0(1), conc(A0(2)), true); }
BP("llvm.memset.") { memSet(A0(0), A0(1), conc(A0(2))); }
#define LANES for (u32 i = 0; i < ci.n; i++)
static V cmpV(Kind k, V a, V b, unsigned w) { return bin(k, a, b, w); }
#define MINMAX(name, K, swapargs) BP(name) { V *a = ARG(0), *b = ARG(1); std::vector<V> r(ci.n); LANES { V x = a[i], y = b[i]; V c = swapargs ? cmpV(K, y, x, ci.w) : cmpV(K, x, y, ci.w); r[i] = iteV(c, x, y, ci.w); } LANES f.regs[ci.dst + i] = r[i]; }
MINMAX("llvm.umin.", ULT, 0)
MINMAX("llvm.umax.", ULT, 1)
MINMAX("llvm.smin.", SLT, 0)
MINMAX("llvm.smax.", SLT, 1)
BP("llvm.abs.") { V *a = ARG(0); LANES { V x = a[i]; V neg = bin(SLT, x, vc(0), ci.w); f.regs[ci.dst + i] = iteV(neg, bin(SUB, vc(0), x, ci.w), x, ci.w); } }
static V popcnt(V x, unsigned w) { if (!x.e) return vc(__builtin_popcountll(x.c)); 
	unsigned rw = 8; Expr *s = nullptr; for (unsigned i = 0; i < w; i++) { Expr *b = mkZExt(mkExtract(x.e, i, 1), rw); s = s ? mk(ADD, s, b) : b; } return fromE(rw > w ? mkExtract(s, 0, w) : mkZExt(s, w)); }
BP("llvm.ctpop.") { V *a = ARG(0); LANES f.regs[ci.dst + i] = popcnt(a[i], ci.w); }
static V clz(V x, unsigned w) { if (!x.e) return vc(x.c ? __builtin_clzll(x.c) - (64 - w) : w); Expr *r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x.e, i, 1), mkConst(w - 1 - i, w), r); return fromE(r); }
static V ctz(V x, unsigned w) { if (!x.e) return vc(x.c ? __builtin_ctzll(x.c) : w); Expr *r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(x.e, i, 1), mkConst(i, w), r); return fromE(r); }
BP("llvm.ctlz.") { V *a = ARG(0); LANES f.regs[ci.dst + i] = clz(a[i], ci.w); }
BP("llvm.cttz.") { V *a = ARG(0); LANES f.regs[ci.dst + i] = ctz(a[i], ci.w); }
BP("llvm.bswap.") { V *a = ARG(0); LANES { if (!a[i].e) f.regs[ci.dst + i] = vc(__builtin_bswap64(a[i].c) >> (64 - ci.w)); else { Expr *r = nullptr; for (unsigned b = 0; b < ci.w / 8; b++) { Expr *x = mkExtract(a[i].e, b * 8, 8); r = r ? mkConcat(r, x) : x; } f.regs[ci.dst + i] = fromE(r); } } }
BP("llvm.bitreverse.") { V *a = ARG(0); LANES { if (!a[i].e) { u64 r = 0; for (unsigned b = 0; b < ci.w; b++) if (a[i].c >> b & 1) r |= 1ULL << (ci.w - 1 - b); f.regs[ci.dst + i] = vc(r); } else { Expr *r = nullptr; for (unsigned b = 0; b < ci.w; b++) { Expr *x = mkExtract(a[i].e, b, 1); r = r ? mkConcat(r, x) : x; } f.regs[ci.dst + i] = fromE(r); } } }
static V fsh(V a, V b, V s, unsigned w, bool left) {
	if (!s.e) { u64 k = s.c % w; if (!k) return left ? a : b; if (!left) k = w - k; if (!a.e && !b.e) return vc(((a.c << k) | (b.c >> (w - k))) & maskw(w)); return fromE(mkConcat(mkExtract(toE(a, w), 0, w - k), mkExtract(toE(b, w), w - k, k))); }
	Expr *k = mk(UREM, s.e, mkConst(w, w)); Expr *A = toE(a, w), *Bx = toE(b, w); Expr *inv = mk(SUB, mkConst(w, w), k);
	if (left) return fromE(mk(OR, mk(SHL, A, k), mk(LSHR, Bx, inv))); return fromE(mk(OR, mk(LSHR, Bx, k), mk(SHL, A, inv))); }
BP("llvm.fshl.") { V *a = ARG(0), *b = ARG(1), *s = ARG(2); std::vector<V> r(ci.n); LANES r[i] = fsh(a[i], b[i], s[i], ci.w, true); LANES f.regs[ci.dst + i] = r[i]; }
BP("llvm.fshr.") { V *a = ARG(0), *b = ARG(1), *s = ARG(2); std::vector<V> r(ci.n); LANES r[i] = fsh(a[i], b[i], s[i], ci.w, false); LANES f.regs[ci.dst + i] = r[i]; }
static void withOv(CallInfo &ci, Frame &f, Kind k, bool sgn) {
	V a = A0(0), b = A0(1); unsigned w = ci.argw[0]; V r = bin(k, a, b, w), o;
	if (!a.e && !b.e && w <= 64) { __int128 x = sgn ? (__int128)((i64)(a.c << (64 - w)) >> (64 - w)) : (__int128)a.c, y = sgn ? (__int128)((i64)(b.c << (64 - w)) >> (64 - w)) : (__int128)b.c;
		bool ov; if (k == MUL && !sgn) { unsigned __int128 z = (unsigned __int128)a.c * b.c; ov = z > maskw(w); } else { __int128 z = k == ADD ? x + y : k == SUB ? x - y : x * y; ov = sgn ? (z < -((__int128)1 << (w - 1)) || z > ((__int128)1 << (w - 1)) - 1) : (z < 0 || z > (__int128)maskw(w)); } o = vc(ov); }
	else { Expr *A = toE(a, w), *Bx = toE(b, w); unsigned W = k == MUL ? 2 * w : w + 2; if (k == MUL && !sgn && w <= 64) { // bounded operands cannot overflow
			if ((unsigned __int128)A->hi * Bx->hi <= maskw(w)) { f.regs[ci.dst] = r; f.regs[ci.dst + 1] = vc(0); return; } }
		Expr *x = sgn ? mkSExt(A, W) : mkZExt(A, W), *y = sgn ? mkSExt(Bx, W) : mkZExt(Bx, W); Expr *z = mk(k, x, y); Expr *back = sgn ? mkSExt(mkExtract(z, 0, w), W) : mkZExt(mkExtract(z, 0, w), W); o = fromE(mkNot(mk(EQ, z, back)));
		if (!sgn && k == ADD) o = fromE(mk(ULT, toE(r, w), A)); if (!sgn && k == SUB) o = fromE(mk(ULT, A, Bx)); }
	f.regs[ci.dst] = r; f.regs[ci.dst + 1] = o; }
BP("llvm.uadd.with.overflow.") { withOv(ci, f, ADD, false); }
BP("llvm.sadd.with.overflow.") { withOv(ci, f, ADD, true); }
BP("llvm.usub.with.overflow.") { withOv(ci, f, SUB, false); }
BP("llvm.ssub.with.overflow.") { withOv(ci, f, SUB, true); }
BP("llvm.umul.with.overflow.") { withOv(ci, f, MUL, false); }
BP("llvm.smul.with.overflow.") { withOv(ci, f, MUL, true); }
BP("llvm.uadd.sat.") { V *a = ARG(0), *b = ARG(1); std::vector<V> r(ci.n); LANES { V s = bin(ADD, a[i], b[i], ci.w); r[i] = iteV(bin(ULT, s, a[i], ci.w), vc(maskw(ci.w)), s, ci.w); } LANES f.regs[ci.dst + i] = r[i]; }
BP("llvm.usub.sat.") { V *a = ARG(0), *b = ARG(1); std::vector<V> r(ci.n); LANES { r[i] = iteV(bin(ULT, a[i], b[i], ci.w), vc(0), bin(SUB, a[i], b[i], ci.w), ci.w); } LANES f.regs[ci.dst + i] = r[i]; }
BP("llvm.ptrmask.") { RET(bin(AND, A0(0), A0(1), 64)); }
static void reduce(CallInfo &ci, Frame &f, std::function<V(V, V)> op) { V *a = ARG(0); V r = a[0]; for (u32 i = 1; i < ci.argn[0]; i++) r = op(r, a[i]); RET(r); }
BP("llvm.vector.reduce.add.") { reduce(ci, f, [&](V x, V y) { return bin(ADD, x, y, ci.w); }); }
BP("llvm.vector.reduce.mul.") { reduce(ci, f, [&](V x, V y) { return bin(MUL, x, y, ci.w); }); }
BP("llvm.vector.reduce.and.") { reduce(ci, f, [&](V x, V y) { return bin(AND, x, y, ci.w); }); }
BP("llvm.vector.reduce.or.") { reduce(ci, f, [&](V x, V y) { return bin(OR, x, y, ci.w); }); }
BP("llvm.vector.reduce.xor.") { reduce(ci, f, [&](V x, V y) { return bin(XOR, x, y, ci.w); }); }
BP("llvm.vector.reduce.umax.") { reduce(ci, f, [&](V x, V y) { return iteV(bin(ULT, x, y, ci.w), y, x, ci.w); }); }
BP("llvm.vector.reduce.umin.") { reduce(ci, f, [&](V x, V y) { return iteV(bin(ULT, x, y, ci.w), x, y, ci.w); }); }
BP("llvm.vector.reduce.smax.") { reduce(ci, f, [&](V x, V y) { return iteV(bin(SLT, x, y, ci.w), y, x, ci.w); }); }
BP("llvm.vector.reduce.smin.") { reduce(ci, f, [&](V x, V y) { return iteV(bin(SLT, x, y, ci.w), x, y, ci.w); }); }
// ---- floating point
static unsigned fw(CallInfo &ci) { return ci.w == 32 ? 32 : 64; }
static V f1(Kind k, V a, unsigned w, u32 aux) { if (!a.e) return vc(foldFP(k, w, a.c, w, 0, aux)); return fromE(mkFP(k, w, a.e, nullptr, aux)); }
static V f2(Kind k, V a, V b, unsigned w) { if (!a.e && !b.e) return vc(foldFP(k, w, a.c, w, b.c, 0)); return fromE(mkFP(k, w, toE(a, w), toE(b, w), 0)); }
BP("llvm.sqrt.") { V *a = ARG(0); LANES f.regs[ci.dst + i] = f1(FSQRT, a[i], fw(ci), 0); }
BP("llvm.fabs.") { V *a = ARG(0); LANES f.regs[ci.dst + i] = bin(AND, a[i], vc(maskw(fw(ci) - 1)), fw(ci)); }
BP("llvm.floor.") { V *a = ARG(0); LANES f.regs[ci.dst + i] = f1(FRND, a[i], fw(ci), 0); }
BP("llvm.ceil.") { V *a = ARG(0); LANES f.regs[ci.dst + i] = f1(FRND, a[i], fw(ci), 1); }
BP("llvm.trunc.") { V *a = ARG(0); LANES f.regs[ci.dst + i] = f1(FRND, a[i], fw(ci), 2); }
BP("llvm.rint.") { V *a = ARG(0); LANES f.regs[ci.dst + i] = f1(FRND, a[i], fw(ci), 3); }
BP("llvm.nearbyint.") { V *a = ARG(0); LANES f.regs[ci.dst + i] = f1(FRND, a[i], fw(ci), 3); }
BP("llvm.round.") { V *a = ARG(0); LANES f.regs[ci.dst + i] = f1(FRND, a[i], fw(ci), 4); }
BP("llvm.fmuladd.") { V *a = ARG(0), *b = ARG(1), *c = ARG(2); std::vector<V> r(ci.n); LANES { if (!a[i].e && !b[i].e && !c[i].e) { if (fw(ci) == 64) { double x, y, z; memcpy(&x, &a[i].c, 8); memcpy(&y, &b[i].c, 8); memcpy(&z, &c[i].c, 8); double q = fma(x, y, z); u64 o; memcpy(&o, &q, 8); r[i] = vc(o); } else { float x, y, z; memcpy(&x, &a[i].c, 4); memcpy(&y, &b[i].c, 4); memcpy(&z, &c[i].c, 4); float q = fmaf(x, y, z); u32 o; memcpy(&o, &q, 4); r[i] = vc(o); } } else r[i] = f2(FADD, f2(FMUL, a[i], b[i], fw(ci)), c[i], fw(ci)); } LANES f.regs[ci.dst + i] = r[i]; }
static double cF(const V &v, unsigned w) { u64 c = conc(v); if (w == 32) { float x; u32 y = (u32)c; memcpy(&x, &y, 4); return x; } double d; memcpy(&d, &c, 8); return d; }
static V rF(double d, unsigned w) { if (w == 32) { float x = (float)d; u32 y; memcpy(&y, &x, 4); return vc(y); } u64 c; memcpy(&c, &d, 8); return vc(c); }

#define MATH1(n) static void m_##n(CallInfo &ci, Frame &f) { if (ci.w == 32) RET(rF(n##f((float)cF(A0(0), 32)), 32)); else RET(rF(n(cF(A0(0), 64)), 64)); } static Reg mr1_##n(#n, m_##n), mr2_##n(#n "f", m_##n), mr3_##n("llvm." #n ".", m_##n, true), mr4_##n(#n "l", m_##n);
MATH1(log) MATH1(log2) MATH1(log10) MATH1(exp) MATH1(exp2) MATH1(sin) MATH1(cos) MATH1(log1p) MATH1(tanh) MATH1(cbrt)
static void m_pow(CallInfo &ci, Frame &f) { if (ci.w == 32) RET(rF(powf((float)cF(A0(0), 32), (float)cF(A0(1), 32)), 32)); else RET(rF(pow(cF(A0(0), 64), cF(A0(1), 64)), 64)); } static Reg mp1("pow", m_pow), mp2("powf", m_pow), mp3("llvm.pow.", m_pow, true), mpl("powl", m_pow);
static void m_powi(CallInfo &ci, Frame &f) { int e = (int)conc(A0(1)); if (ci.w == 32) RET(rF(__builtin_powif((float)cF(A0(0), 32), e), 32)); else RET(rF(__builtin_powi(cF(A0(0), 64), e), 64)); } static Reg mp4("llvm.powi.", m_powi, true);
static void m_sqrt(CallInfo &ci, Frame &f) { RET(f1(FSQRT, A0(0), fw(ci), 0)); } static Reg ms1("sqrt", m_sqrt), ms2("sqrtf", m_sqrt);
static void m_floor(CallInfo &ci, Frame &f) { RET(f1(FRND, A0(0), fw(ci), 0)); } static Reg mf1("floor", m_floor), mf2("floorf", m_floor);
static void m_ceil(CallInfo &ci, Frame &f) { RET(f1(FRND, A0(0), fw(ci), 1)); } static Reg mc1("ceil", m_ceil), mc2("ceilf", m_ceil), mc3("ceill", m_ceil);
static void m_fmod(CallInfo &ci, Frame &f) { RET(rF(fmod(cF(A0(0), fw(ci)), cF(A0(1), fw(ci))), fw(ci))); } static Reg mm1("fmod", m_fmod), mm2("fmodf", m_fmod);
static void m_lround(CallInfo &ci, Frame &f) { RET(vc((u64)lround(cF(A0(0), ci.argw[0] == 32 ? 32 : 64)))); } static Reg mlr("lround", m_lround);
static V fltV(V a, V b, unsigned w) { if (!a.e && !b.e) return vc(foldFP(FLT, 1, a.c, w, b.c, 0)); return fromE(mkFP(FLT, 1, toE(a, w), toE(b, w), 0)); }
BP("llvm.maxnum.") { V *a = ARG(0), *b = ARG(1); std::vector<V> r(ci.n); LANES r[i] = iteV(fltV(a[i], b[i], fw(ci)), b[i], a[i], fw(ci)); LANES f.regs[ci.dst + i] = r[i]; }
BP("llvm.minnum.") { V *a = ARG(0), *b = ARG(1); std::vector<V> r(ci.n); LANES r[i] = iteV(fltV(b[i], a[i], fw(ci)), b[i], a[i], fw(ci)); LANES f.regs[ci.dst + i] = r[i]; }
BP("llvm.copysign.") { V *a = ARG(0), *b = ARG(1); unsigned w = fw(ci); LANES f.regs[ci.dst + i] = bin(OR, bin(AND, a[i], vc(maskw(w - 1)), w), bin(AND, b[i], vc(1ULL << (w - 1)), w), w); }
BP("llvm.is.fpclass.") { incompletePath("is.fpclass"); }
// ---- masked memory operations
static V ldAt(V p, unsigned bytes, unsigned w) { Ref r = resolve(p, bytes, false); if (r.soff) { u64 k = concretize(r.soff); r.off = k; r.soff = nullptr; } return loadBytes(r, 0, bytes, w); }
static void stAt(V p, unsigned bytes, unsigned w, V v) { Ref r = resolve(p, bytes, true); if (r.soff) { r.off = concretize(r.soff); r.soff = nullptr; } storeBytes(r, 0, bytes, w, v); }
static V padd(V p, u64 k) { return bin(ADD, p, vc(k), 64); }
static bool cond(V c) { return c.e ? branchOn(c.e) : (c.c & 1); }
// a conditional lane load: when the location is accessible build an ite, otherwise fork on the mask bit
static V maskedLane(V m, V p, unsigned by, unsigned w, V other) { if (!m.e) return m.c & 1 ? ldAt(p, by, w) : other;
	if (!p.e) { Obj *o = lookupObj(p.c); if (o && !(o->flags & 16) && p.c >= o->base && p.c + by <= o->base + o->size) return iteV(m, ldAt(p, by, w), other, w); }
	return branchOn(m.e) ? ldAt(p, by, w) : other; }
static void maskedLaneStore(V m, V p, unsigned by, unsigned w, V v) { if (!m.e) { if (m.c & 1) stAt(p, by, w, v); return; }
	if (!p.e) { Obj *o = lookupObj(p.c); if (o && !(o->flags & (16 | 8)) && p.c >= o->base && p.c + by <= o->base + o->size) { stAt(p, by, w, iteV(m, v, ldAt(p, by, w), w)); return; } }
	if (branchOn(m.e)) stAt(p, by, w, v); }
BP("llvm.masked.load.") { V p = A0(0), *m = ARG(2), *o = ARG(3); unsigned by = ci.w / 8; std::vector<V> r(ci.n); LANES r[i] = maskedLane(m[i], padd(p, i * by), by, ci.w, o[i]); LANES f.regs[ci.dst + i] = r[i]; }
BP("llvm.masked.store.") { V *v = ARG(0), p = A0(1), *m = ARG(3); unsigned w = ci.argw[0], by = w / 8; for (u32 i = 0; i < ci.argn[0]; i++) maskedLaneStore(m[i], padd(p, i * by), by, w, v[i]); }
BP("llvm.masked.gather.") { V *p = ARG(0), *m = ARG(2), *o = ARG(3); unsigned by = ci.w / 8; std::vector<V> r(ci.n); LANES r[i] = maskedLane(m[i], p[i], by, ci.w, o[i]); LANES f.regs[ci.dst + i] = r[i]; }
BP("llvm.masked.scatter.") { V *v = ARG(0), *p = ARG(1), *m = ARG(3); unsigned w = ci.argw[0], by = w / 8; for (u32 i = 0; i < ci.argn[0]; i++) maskedLaneStore(m[i], p[i], by, w, v[i]); }
BP("llvm.masked.compressstore.") { V *v = ARG(0), p = A0(1), *m = ARG(2); unsigned w = ci.argw[0], by = w / 8; u32 k = 0; for (u32 i = 0; i < ci.argn[0]; i++) if (cond(m[i])) { stAt(padd(p, k * by), by, w, v[i]); k++; } }
BP("llvm.masked.expandload.") { V p = A0(0), *m = ARG(1), *o = ARG(2); unsigned by = ci.w / 8; u32 k = 0; std::vector<V> r(ci.n); LANES { if (cond(m[i])) { r[i] = ldAt(padd(p, k * by), by, ci.w); k++; } else r[i] = o[i]; } LANES f.regs[ci.dst + i] = r[i]; }
// ---- x86
static V idxSel(V *tab, u32 n, V ix, unsigned w) { // tab[ix mod n], n a power of two
	if (!ix.e) return tab[ix.c & (n - 1)]; unsigned iw = ix.e->w; 
	std::function<V(u32, u32, int)> go = [&](u32 lo, u32 cnt, int bit) -> V { if (cnt == 1) return tab[lo]; V a = go(lo, cnt / 2, bit - 1), b = go(lo + cnt / 2, cnt / 2, bit - 1); return iteV(fromE(mkExtract(ix.e, bit, 1)), b, a, w); }; (void)iw;
	return go(0, n, __builtin_ctz(n) - 1); }
static void pshufb(CallInfo &ci, Frame &f) { V *a = ARG(0), *b = ARG(1); std::vector<V> r(ci.n); LANES { u32 base = i / 16 * 16; V ix = b[i]; V z = ix.e ? fromE(mkExtract(ix.e, 7, 1)) : vc(ix.c >> 7 & 1); V s = idxSel(a + base, 16, ix, 8); r[i] = iteV(z, vc(0), s, 8); } LANES f.regs[ci.dst + i] = r[i]; }
static Reg x1("llvm.x86.ssse3.pshuf.b.128", pshufb), x2("llvm.x86.avx2.pshuf.b", pshufb), x3("llvm.x86.avx512.pshuf.b.512", pshufb);
static void permvar(CallInfo &ci, Frame &f) { V *a = ARG(0), *b = ARG(1); std::vector<V> r(ci.n); LANES r[i] = idxSel(a, ci.n, b[i], ci.w); LANES f.regs[ci.dst + i] = r[i]; }
static Reg x4("llvm.x86.avx2.permd", permvar), x5("llvm.x86.avx512.permvar.", permvar, true), x6("llvm.x86.avx2.permps", permvar);
static void vpermi2(CallInfo &ci, Frame &f) { V *a = ARG(0), *ix = ARG(1), *b = ARG(2); std::vector<V> t(a, a + ci.n); t.insert(t.end(), b, b + ci.n); std::vector<V> r(ci.n); LANES r[i] = idxSel(t.data(), 2 * ci.n, ix[i], ci.w); LANES f.regs[ci.dst + i] = r[i]; }
static Reg x7("llvm.x86.avx512.vpermi2var.", vpermi2, true);
static void movmsk(CallInfo &ci, Frame &f) { V *a = ARG(0); unsigned w = ci.argw[0]; Expr *e = nullptr; for (int i = ci.argn[0] - 1; i >= 0; i--) { Expr *b = mkExtract(toE(a[i], w), w - 1, 1); e = e ? mkConcat(e, b) : b; } RET(fromE(mkZExt(e, ci.w))); }
static Reg x8("llvm.x86.sse2.pmovmskb.128", movmsk), x9("llvm.x86.avx2.pmovmskb", movmsk), x10("llvm.x86.sse.movmsk.ps", movmsk), x11("llvm.x86.avx.movmsk.ps.256", movmsk), x12("llvm.x86.sse2.movmsk.pd", movmsk), x13("llvm.x86.avx.movmsk.pd.256", movmsk);
static void ptestz(CallInfo &ci, Frame &f) { V *a = ARG(0), *b = ARG(1); V z = vc(1); for (u32 i = 0; i < ci.argn[0]; i++) z = bin(AND, z, bin(EQ, bin(AND, a[i], b[i], ci.argw[0]), vc(0), ci.argw[0]), 1); RET(z.e ? fromE(mkZExt(z.e, ci.w)) : z); }
static Reg x14("llvm.x86.avx.ptestz.256", ptestz), x15("llvm.x86.sse41.ptestz", ptestz);
static V shv(V a, V s, unsigned w, int kind) { // kind 0 shl 1 lshr 2 ashr, x86 semantics for large counts
	return bin(kind == 0 ? SHL : kind == 1 ? LSHR : ASHR, a, s, w); }
static void psv(CallInfo &ci, Frame &f, int kind) { V *a = ARG(0), *b = ARG(1); std::vector<V> r(ci.n); LANES r[i] = shv(a[i], b[i], ci.w, kind); LANES f.regs[ci.dst + i] = r[i]; }
#define PSV(nm, n, k) static void nm(CallInfo &ci, Frame &f) { psv(ci, f, k); } static Reg CAT(rpsv_, __LINE__)(n, nm, true);
PSV(ps1, "llvm.x86.avx2.psllv.", 0)
PSV(ps2, "llvm.x86.avx2.psrlv.", 1)
PSV(ps3, "llvm.x86.avx2.psrav.", 2)
PSV(ps4, "llvm.x86.avx512.psllv.", 0)
PSV(ps5, "llvm.x86.avx512.psrlv.", 1)
PSV(ps6, "llvm.x86.avx512.psrav.", 2)
static void pscount(CallInfo &ci, Frame &f, int kind) { // count in the low 64 bits of an xmm register
	V *a = ARG(0), *b = ARG(1); V c; u32 per = 64 / ci.argw[1]; bitcastLanes(b, per, ci.argw[1], &c, 1, 64); unsigned w = ci.w; std::vector<V> r(ci.n);
	LANES { if (!c.e) { r[i] = c.c >= w ? (kind == 2 ? shv(a[i], vc(w - 1), w, 2) : vc(0)) : shv(a[i], vc(c.c), w, kind); } else { V big = bin(ULE, vc(w), c, 64); V lo = fromE(mkExtract(c.e, 0, w)); V s = shv(a[i], lo, w, kind); r[i] = iteV(big, kind == 2 ? shv(a[i], vc(w - 1), w, 2) : vc(0), s, w); } } LANES f.regs[ci.dst + i] = r[i]; }
static void psimm(CallInfo &ci, Frame &f, int kind) { V *a = ARG(0), c = A0(1); unsigned w = ci.w; std::vector<V> r(ci.n); LANES { if (!c.e) r[i] = c.c >= w ? (kind == 2 ? shv(a[i], vc(w - 1), w, 2) : vc(0)) : shv(a[i], vc(c.c), w, kind); else { V big = bin(ULE, vc(w), c, 32); V lo = fromE(w < 32 ? mkExtract(c.e, 0, w) : mkZExt(c.e, w)); r[i] = iteV(big, kind == 2 ? shv(a[i], vc(w - 1), w, 2) : vc(0), shv(a[i], lo, w, kind), w); } } LANES f.regs[ci.dst + i] = r[i]; }
#define PSC(nm, n, fn, k) static void nm(CallInfo &ci, Frame &f) { fn(ci, f, k); } static Reg CAT(rpsc_, __LINE__)(n, nm, true);
PSC(pc1, "llvm.x86.sse2.psll.", pscount, 0)
PSC(pc2, "llvm.x86.sse2.psrl.", pscount, 1)
PSC(pc3, "llvm.x86.sse2.psra.", pscount, 2)
PSC(pc4, "llvm.x86.avx2.psll.", pscount, 0)
PSC(pc5, "llvm.x86.avx2.psrl.", pscount, 1)
PSC(pc6, "llvm.x86.avx2.psra.", pscount, 2)
PSC(pc7, "llvm.x86.avx512.psll.", pscount, 0)
PSC(pc8, "llvm.x86.avx512.psrl.", pscount, 1)
PSC(pc9, "llvm.x86.avx512.psra.", pscount, 2)
PSC(pi1, "llvm.x86.sse2.pslli.", psimm, 0)
PSC(pi2, "llvm.x86.sse2.psrli.", psimm, 1)
PSC(pi3, "llvm.x86.sse2.psrai.", psimm, 2)
PSC(pi4, "llvm.x86.avx2.pslli.", psimm, 0)
PSC(pi5, "llvm.x86.avx2.psrli.", psimm, 1)
PSC(pi6, "llvm.x86.avx2.psrai.", psimm, 2)
PSC(pi7, "llvm.x86.avx512.pslli.", psimm, 0)
PSC(pi8, "llvm.x86.avx512.psrli.", psimm, 1)
PSC(pi9, "llvm.x86.avx512.psrai.", psimm, 2)
V symLoad(const Ref &r, u64 size, u64 delta, unsigned bytes, unsigned w);
static void gatherX(CallInfo &ci, Frame &f) { // (src, base, index, mask, scale)
	V *src = ARG(0), base = A0(1), *ix = ARG(2), *m = ARG(3); u64 sc = conc(A0(4)); unsigned iw = ci.argw[2], mw = ci.argw[3], by = ci.w / 8; bool mvec = ci.argn[3] > 1; std::vector<V> r(ci.n);
	LANES { V on = mvec ? (mw == 1 ? m[i] : m[i].e ? fromE(mkExtract(m[i].e, mw - 1, 1)) : vc(m[i].c >> (mw - 1) & 1)) : (m[0].e ? fromE(mkExtract(m[0].e, i, 1)) : vc(m[0].c >> i & 1)); V x = ix[i]; V off = x.e ? fromE(mk(MUL, mkSExt(x.e, 64), mkConst(sc, 64))) : vc((u64)sext64(x.c, iw) * sc); V p = bin(ADD, base, off, 64);
		if (p.e) { if (cond(on)) { Ref rr = resolve(p, by, false); r[i] = rr.soff ? symLoad(rr, by, 0, by, ci.w) : loadBytes(rr, 0, by, ci.w); } else r[i] = src[i]; } else r[i] = maskedLane(on, p, by, ci.w, src[i]); }
	LANES f.regs[ci.dst + i] = r[i]; }
static Reg xg1("llvm.x86.avx2.gather.d.d", gatherX, true), xg2("llvm.x86.avx512.mask.gather.dpi.", gatherX, true), xg3("llvm.x86.avx512.mask.gather3siv", gatherX, true), xg4("llvm.x86.avx2.gather.d.q", gatherX, true), xg5("llvm.x86.avx512.mask.gather.dpq.", gatherX, true);
static void scatterX(CallInfo &ci, Frame &f) { // (base, mask, index, value, scale)
	V base = A0(0), *m = ARG(1), *ix = ARG(2), *v = ARG(3); u64 sc = conc(A0(4)); unsigned iw = ci.argw[2], w = ci.argw[3], by = w / 8; bool mvec = ci.argn[1] > 1;
	for (u32 i = 0; i < ci.argn[3]; i++) { V on = mvec ? m[i] : (m[0].e ? fromE(mkExtract(m[0].e, i, 1)) : vc(m[0].c >> i & 1)); V x = ix[i]; V off = x.e ? fromE(mk(MUL, mkSExt(x.e, 64), mkConst(sc, 64))) : vc((u64)sext64(x.c, iw) * sc); V p = bin(ADD, base, off, 64); if (p.e) { if (cond(on)) stAt(p, by, w, v[i]); } else maskedLaneStore(on, p, by, w, v[i]); } }
static Reg xs1("llvm.x86.avx512.mask.scatter", scatterX, true);
static void conflict(CallInfo &ci, Frame &f) { V *a = ARG(0); std::vector<V> r(ci.n); LANES { Expr *e = mkConst(0, ci.w); for (u32 j = 0; j < i; j++) { V q = bin(EQ, a[i], a[j], ci.w); e = mk(OR, e, mk(SHL, mkZExt(toE(q, 1), ci.w), mkConst(j, ci.w))); } r[i] = fromE(e); } LANES f.regs[ci.dst + i] = r[i]; }
static Reg xc1("llvm.x86.avx512.conflict.", conflict, true);
static void maddwd(CallInfo &ci, Frame &f) { V *a = ARG(0), *b = ARG(1); std::vector<V> r(ci.n); LANES { auto S = [&](V v) { return mkSExt(toE(v, 16), 32); }; r[i] = fromE(mk(ADD, mk(MUL, S(a[2 * i]), S(b[2 * i])), mk(MUL, S(a[2 * i + 1]), S(b[2 * i + 1])))); } LANES f.regs[ci.dst + i] = r[i]; }
static Reg xm1("llvm.x86.sse2.pmadd.wd", maddwd), xm2("llvm.x86.avx2.pmadd.wd", maddwd), xm3("llvm.x86.avx512.pmaddw.d.512", maddwd);
static void maddubs(CallInfo &ci, Frame &f) { V *a = ARG(0), *b = ARG(1); std::vector<V> r(ci.n); LANES { auto U = [&](V v) { return mkZExt(toE(v, 8), 32); }; auto S = [&](V v) { return mkSExt(toE(v, 8), 32); }; Expr *s = mk(ADD, mk(MUL, U(a[2 * i]), S(b[2 * i])), mk(MUL, U(a[2 * i + 1]), S(b[2 * i + 1]))); Expr *mx = mkConst(32767, 32), *mn = mkConst((u32)-32768, 32); s = mkIte(mk(SLT, mx, s), mx, mkIte(mk(SLT, s, mn), mn, s)); r[i] = fromE(mkExtract(s, 0, 16)); } LANES f.regs[ci.dst + i] = r[i]; }
static Reg xm4("llvm.x86.ssse3.pmadd.ub.sw.128", maddubs), xm5("llvm.x86.avx2.pmadd.ub.sw", maddubs), xm6("llvm.x86.avx512.pmaddubs.w.512", maddubs);
static void pack(CallInfo &ci, Frame &f, bool us) { V *a = ARG(0), *b = ARG(1); unsigned iw = ci.argw[0], ow = ci.w; u32 per = 128 / ow; std::vector<V> r(ci.n);
	LANES { u32 lane = i / per, k = i % per; V v = k < per / 2 ? a[lane * per / 2 + k] : b[lane * per / 2 + k - per / 2]; Expr *x = toE(v, iw); Expr *mx = mkConst(us ? maskw(ow) : maskw(ow - 1), iw), *mn = us ? mkConst(0, iw) : mkConst(0 - (1ULL << (ow - 1)), iw); x = mkIte(mk(SLT, mx, x), mx, mkIte(mk(SLT, x, mn), mn, x)); r[i] = fromE(mkExtract(x, 0, ow)); } LANES f.regs[ci.dst + i] = r[i]; }
static void packus(CallInfo &ci, Frame &f) { pack(ci, f, true); } static void packss(CallInfo &ci, Frame &f) { pack(ci, f, false); }
static Reg xp1("llvm.x86.sse2.packuswb.128", packus), xp2("llvm.x86.avx2.packuswb", packus), xp3("llvm.x86.sse41.packusdw", packus), xp4("llvm.x86.avx2.packusdw", packus), xp5("llvm.x86.sse2.packsswb.128", packss), xp6("llvm.x86.sse2.packssdw.128", packss);
static void pext(CallInfo &ci, Frame &f) { V a = A0(0); u64 m = conc(A0(1)); Expr *r = nullptr; Expr *x = toE(a, ci.w); for (unsigned i = 0; i < ci.w; i++) if (m >> i & 1) { Expr *b = mkExtract(x, i, 1); r = r ? mkConcat(b, r) : b; } RET(r ? fromE(mkZExt(r, ci.w)) : vc(0)); }
static void pdep(CallInfo &ci, Frame &f) { V a = A0(0); u64 m = conc(A0(1)); Expr *r = nullptr; Expr *x = toE(a, ci.w); unsigned k = 0; for (unsigned i = 0; i < ci.w; i++) { Expr *b = (m >> i & 1) ? mkExtract(x, k++, 1) : mkConst(0, 1); r = r ? mkConcat(b, r) : b; } RET(fromE(r)); }
static Reg xe1("llvm.x86.bmi.pext.", pext, true), xe2("llvm.x86.bmi.pdep.", pdep, true);
static void bzhi(CallInfo &ci, Frame &f) { V a = A0(0), s = A0(1); unsigned w = ci.w; Expr *i = mkZExt(mkExtract(toE(s, w), 0, 8), w); Expr *m = mk(SUB, mk(SHL, mkConst(1, w), i), mkConst(1, w)); Expr *r = mkIte(mk(ULE, mkConst(w, w), i), toE(a, w), mk(AND, toE(a, w), m)); RET(fromE(r)); }
static Reg xb1("llvm.x86.bmi.bzhi.", bzhi, true);
static void bextr(CallInfo &ci, Frame &f) { V a = A0(0), s = A0(1); unsigned w = ci.w; Expr *S = toE(s, w); Expr *st = mkZExt(mkExtract(S, 0, 8), w), *ln = mkZExt(mkExtract(S, 8, 8), w); Expr *x = mk(LSHR, toE(a, w), st); Expr *m = mk(SUB, mk(SHL, mkConst(1, w), ln), mkConst(1, w)); RET(fromE(mkIte(mk(ULE, mkConst(w, w), ln), x, mk(AND, x, m)))); }
static Reg xb2("llvm.x86.bmi.bextr.", bextr, true);
static void lddqu(CallInfo &ci, Frame &f) { V p = A0(0); unsigned by = ci.w / 8; Ref r = resolve(p, by * ci.n, false); if (r.soff) { r.off = concretize(r.soff); r.soff = nullptr; } std::vector<V> t(ci.n); LANES t[i] = loadBytes(r, i * by, by, ci.w); LANES f.regs[ci.dst + i] = t[i]; }
static Reg xl1("llvm.x86.avx.ldu.dq.256", lddqu), xl2("llvm.x86.sse3.ldu.dq", lddqu);
static void maskedStoreX(CallInfo &ci, Frame &f) { V p = A0(0), *m = ARG(1), *v = ARG(2); unsigned w = ci.argw[2], by = w / 8, mw = ci.argw[1]; for (u32 i = 0; i < ci.argn[2]; i++) { V on = m[i].e ? fromE(mkExtract(m[i].e, mw - 1, 1)) : vc(m[i].c >> (mw - 1) & 1); maskedLaneStore(on, padd(p, i * by), by, w, v[i]); } }
static Reg xl3("llvm.x86.avx2.maskstore.", maskedStoreX, true);

// ---------------------------------------------------------------- varargs
BP("llvm.va_start") {
	std::vector<V> &va = f.varargs; // layout: everything in the overflow area
	u64 n = va.size() * 8 + 16; if (f.vaArea) freeObj(f.vaArea >> 32);
	u32 id = newObj(n, OK_STACK, "varargs", 16); f.vaArea = g_objs[id].base; u64 base = g_objs[id].base;
	for (size_t i = 0; i < va.size(); i++) { unsigned w = f.varw[i]; V v = va[i]; Ref r{&g_objs[id], i * 8, nullptr}; storeBytes(r, 0, 8, 64, v.e ? fromE(mkZExt(v.e, 64)) : v); (void)w; }
	V ap = A0(0); stAt(ap, 4, 32, vc(48)); stAt(padd(ap, 4), 4, 32, vc(304)); stAt(padd(ap, 8), 8, 64, vc(base)); stAt(padd(ap, 16), 8, 64, vc(0)); }
BP("llvm.va_copy") { memCopy(A0(0), A0(1), 24, false); }
// printf family
struct ArgSrc { std::function<u64()> nextInt; std::function<double()> nextD; };
static std::string formatStr(const std::string &fmt, ArgSrc &src) {
	std::string out;
	for (size_t i = 0; i < fmt.size(); i++) {
		if (fmt[i] != '%') { out += fmt[i]; continue; }
		if (fmt[i + 1] == '%') { out += '%'; i++; continue; }
		std::string sp = "%"; i++; int lng = 0; bool sz = false;
		while (i < fmt.size()) { char c = fmt[i];
			if (c == '*') { sp += std::to_string((int)src.nextInt()); i++; continue; }
			if (strchr("-+ #0123456789.", c)) { sp += c; i++; continue; }
			if (c == 'l') { lng++; i++; continue; } if (c == 'h') { lng--; i++; continue; } if (c == 'z' || c == 'j' || c == 't') { sz = true; i++; continue; } break; }
		char c = i < fmt.size() ? fmt[i] : 0; char buf[512]; bool is64 = lng > 0 || sz;
		switch (c) {
		case 'd': case 'i': { i64 v = (i64)src.nextInt(); if (!is64) v = (int)v; if (lng == -1) v = (short)v; sp += "lld"; snprintf(buf, sizeof buf, sp.c_str(), (long long)v); out += buf; break; }
		case 'u': case 'x': case 'X': case 'o': { u64 v = src.nextInt(); if (!is64) v = (u32)v; sp += "ll"; sp += c; snprintf(buf, sizeof buf, sp.c_str(), (unsigned long long)v); out += buf; break; }
		case 'c': { out += (char)src.nextInt(); break; }
		case 'p': { snprintf(buf, sizeof buf, "%p", (void *)src.nextInt()); out += buf; break; }
		case 's': { u64 p = src.nextInt(); std::string s; size_t prec = std::string::npos; size_t dot = sp.find('.'); if (dot != std::string::npos) prec = atoi(sp.c_str() + dot + 1);
			for (u64 k = 0; k < prec && k < 100000; k++) { u64 ch = conc(ldAt(vc(p + k), 1, 8)); if (!ch) break; s += (char)ch; } sp += "s"; std::vector<char> big(s.size() + 300); snprintf(big.data(), big.size(), sp.c_str(), s.c_str()); out += big.data(); break; }
		case 'f': case 'g': case 'e': case 'G': case 'F': case 'E': { double d = src.nextD(); sp += c; snprintf(buf, sizeof buf, sp.c_str(), d); out += buf; break; }
		default: incompletePath("printf format " + fmt); }
	}
	return out;
}
static ArgSrc callArgs(CallInfo &ci, Frame &f, size_t first) { auto k = std::make_shared<size_t>(first); return ArgSrc{[&ci, &f, k]() { V v = A0(*k); (*k)++; return conc(v); }, [&ci, &f, k]() { V v = A0(*k); (*k)++; return cF(v, 64); }}; }
static ArgSrc vaArgs(V ap) { // read through an x86-64 va_list
	auto next = [ap](bool fp) { u64 off = conc(ldAt(padd(ap, fp ? 4 : 0), 4, 32)); u64 lim = fp ? 176 : 48; u64 p; if (off < lim) { u64 ra = conc(ldAt(padd(ap, 16), 8, 64)); p = ra + off; stAt(padd(ap, fp ? 4 : 0), 4, 32, vc(off + (fp ? 16 : 8))); } else { p = conc(ldAt(padd(ap, 8), 8, 64)); stAt(padd(ap, 8), 8, 64, vc(p + 8)); } return conc(ldAt(vc(p), 8, 64)); };
	return ArgSrc{[next]() { return next(false); }, [next]() { u64 b = next(true); double d; memcpy(&d, &b, 8); return d; }}; }
static void putStr(V dst, const std::string &s, u64 cap) { if (!cap) return; u64 n = std::min<u64>(s.size(), cap - 1); for (u64 i = 0; i < n; i++) stAt(padd(dst, i), 1, 8, vc((u8)s[i])); stAt(padd(dst, n), 1, 8, vc(0)); }
B1("snprintf") { ArgSrc a = callArgs(ci, f, 3); std::string s = formatStr(readCStr(A0(2)), a); putStr(A0(0), s, conc(A0(1))); RET(vc(s.size())); }
B1("sprintf") { ArgSrc a = callArgs(ci, f, 2); std::string s = formatStr(readCStr(A0(1)), a); putStr(A0(0), s, 1ULL << 40); RET(vc(s.size())); }
B1("vsnprintf") { ArgSrc a = vaArgs(A0(3)); std::string s = formatStr(readCStr(A0(2)), a); putStr(A0(0), s, conc(A0(1))); RET(vc(s.size())); }
B1("printf") { RET(vc(1)); }
B1("puts") { RET(vc(1)); }
B1("putchar") { RET(vc(1)); }
B1("fputs_stdout") { RET(vc(1)); }
B1("perror") { }
B1("fflush") { RET(vc(0)); }
B1("vprintf") { RET(vc(1)); }
B1("sym_format") { ArgSrc a = vaArgs(A0(3)); std::string s = formatStr(readCStr(A0(2)), a); putStr(A0(0), s, conc(A0(1))); RET(vc(s.size())); }

// ---------------------------------------------------------------- memory management
static V doMalloc(u64 n, u64 align = 16) { if (n > (1ULL << 31)) incompletePath("huge allocation"); u32 id = newObj(n, OK_HEAP, "heap", align); return vc(g_objs[id].base); }
static void doFree(V p) { u64 a = conc(p); if (!a) return; Obj *o = lookupObj(a); if (!o || !(o->flags & OK_HEAP) || a != o->base) fatalViolation("mem", "free of a pointer that is not an allocated block"); if (o->flags & OK_DEAD) fatalViolation("mem", "double free"); freeObj(a >> 32); }
static void b_malloc(CallInfo &ci, Frame &f) { RET(doMalloc(conc(A0(0)))); }
ALIAS("malloc", b_malloc);
ALIAS("_Znwm", b_malloc);
ALIAS("_Znam", b_malloc);
static Reg mmal3("_ZnwmRKSt9nothrow_t", b_malloc), mmal4("_ZnamRKSt9nothrow_t", b_malloc), mmal5("valloc", b_malloc);
B1("_ZnwmSt11align_val_t") { RET(doMalloc(conc(A0(0)), conc(A0(1)))); }
B1("_ZnamSt11align_val_t") { RET(doMalloc(conc(A0(0)), conc(A0(1)))); }
B1("aligned_alloc") { RET(doMalloc(conc(A0(1)), conc(A0(0)))); }
B1("memalign") { RET(doMalloc(conc(A0(1)), conc(A0(0)))); }
B1("posix_memalign") { V p = doMalloc(conc(A0(2)), conc(A0(1))); stAt(A0(0), 8, 64, p); RET(vc(0)); }
B1("calloc") { u64 n = conc(A0(0)) * conc(A0(1)); V p = doMalloc(n); memSet(p, vc(0), n); RET(p); }
B1("realloc") { u64 a = conc(A0(0)), n = conc(A0(1)); V p = doMalloc(n); if (a) { Obj *o = lookupObj(a); if (!o || (o->flags & OK_DEAD) || a != o->base || !(o->flags & OK_HEAP)) fatalViolation("mem", "realloc of a bad pointer"); memCopy(p, vc(a), std::min<u64>(n, o->size), false); freeObj(a >> 32); } RET(p); }
static void b_free(CallInfo &ci, Frame &f) { doFree(A0(0)); }
static Reg mf_1("free", b_free), mf_2("_ZdlPv", b_free), mf_3("_ZdaPv", b_free), mf_4("_ZdlPvm", b_free), mf_5("_ZdaPvm", b_free), mf_6("_ZdlPvSt11align_val_t", b_free), mf_7("_ZdlPvmSt11align_val_t", b_free), mf_8("_ZdaPvSt11align_val_t", b_free), mf_9("_ZdaPvmSt11align_val_t", b_free), mf_a("_ZdlPvRKSt9nothrow_t", b_free);
B1("malloc_usable_size") { Obj *o = lookupObj(conc(A0(0))); RET(vc(o ? o->size : 0)); }
// ---------------------------------------------------------------- strings
static void b_memcpy(CallInfo &ci, Frame &f) { V d = A0(0); memCopy(d, A0(1), conc(A0(2)), true); RET(d); }
static Reg ms_1("memcpy", b_memcpy), ms_2("memmove", b_memcpy);
B1("memset") { V d = A0(0); memSet(d, A0(1), conc(A0(2))); RET(d); }
static V byteAt(V p, u64 i) { return ldAt(padd(p, i), 1, 8); }
static void b_memcmp(CallInfo &ci, Frame &f) {
	V a = A0(0), b = A0(1); u64 n = conc(A0(2)); if (!n) { RET(vc(0)); return; }
	Ref ra = resolve(a, n, false), rb = resolve(b, n, false); if (ra.soff) { ra.off = concretize(ra.soff); ra.soff = nullptr; } if (rb.soff) { rb.off = concretize(rb.soff); rb.soff = nullptr; }
	if (!ra.o->nsym && !rb.o->nsym) { int r = memcmp(ra.o->data + ra.off, rb.o->data + rb.off, n); RET(vc((u32)(r < 0 ? -1 : r > 0))); return; }
	Expr *r = mkConst(0, 32); for (u64 i = n; i-- > 0;) { Expr *x = toE(loadBytes(ra, i, 1, 8), 8), *y = toE(loadBytes(rb, i, 1, 8), 8); r = mkIte(mk(EQ, x, y), r, mkIte(mk(ULT, x, y), mkConst(~0u, 32), mkConst(1, 32))); }
	RET(fromE(r)); }
static Reg ms_3("memcmp", b_memcmp);
B1("bcmp") { V a = A0(0), b = A0(1); u64 n = conc(A0(2)); if (!n) { RET(vc(0)); return; } Ref ra = resolve(a, n, false), rb = resolve(b, n, false); if (ra.soff) { ra.off = concretize(ra.soff); ra.soff = nullptr; } if (rb.soff) { rb.off = concretize(rb.soff); rb.soff = nullptr; } Expr *q = mkConst(1, 1); for (u64 i = 0; i < n; i++) q = mk(AND, q, mk(EQ, toE(loadBytes(ra, i, 1, 8), 8), toE(loadBytes(rb, i, 1, 8), 8))); RET(fromE(mkZExt(mkNot(q), 32))); }
// ---------------------------------------------------------------- process, time
B1("abort") { fatalViolation("abort", "abort called"); }
static void b_exit(CallInfo &ci, Frame &f) { fatalViolation("exit", "exit called"); }
static Reg ex1("exit", b_exit), ex2("_exit", b_exit), ex3("quick_exit", b_exit), ex4("_ZSt9terminatev", b_exit), ex5("__clang_call_terminate", b_exit);
B1("__assert_fail") { fatalViolation("assert", "assertion failed in the code: " + readCStr(A0(0))); }
B1("__cxa_atexit") { RET(vc(0)); }
B1("atexit") { RET(vc(0)); }
B1("__cxa_pure_virtual") { fatalViolation("mem", "pure virtual call"); }
B1("time") { RET(vc(1000000)); }
B1("clock") { RET(vc(1000)); }
B1("sleep") { RET(vc(0)); }
B1("usleep") { RET(vc(0)); }
B1("rand") { RET(vc(42)); }
B1("srand") {}
B1("_ZNSt6chrono3_V212steady_clock3nowEv") { static u64 t = 1000000; RET(vc(t += 1000)); }
B1("_ZNSt6chrono3_V212system_clock3nowEv") { static u64 t = 1000000; RET(vc(t += 1000)); }
B1("clock_gettime") { stAt(A0(1), 8, 64, vc(1000)); stAt(padd(A0(1), 8), 8, 64, vc(0)); RET(vc(0)); }
B1("getpid") { RET(vc(4242)); }
B1("getenv") { RET(vc(0)); }
B1("__errno_location") { static u64 a = 0; if (!a) { u32 id = newObj(8, OK_GLOBAL, "errno", 16); a = g_objs[id].base; } RET(vc(a)); }
B1("sysconf") { RET(vc(4096)); }
// ---------------------------------------------------------------- C++ runtime
B1("__cxa_guard_acquire") { u64 p = conc(A0(0)); if (conc(ldAt(vc(p), 1, 8))) { hbAcquire(p); RET(vc(0)); return; } if (conc(ldAt(vc(p + 1), 1, 8))) { g_cur->state = 2; g_cur->waitOn = p + 1; g_retry = true; return; } stAt(vc(p + 1), 1, 8, vc(1)); hbAcquire(p); RET(vc(1)); }
B1("__cxa_guard_release") { u64 p = conc(A0(0)); stAt(vc(p), 1, 8, vc(1)); stAt(vc(p + 1), 1, 8, vc(0)); hbRelease(p); }
B1("__cxa_guard_abort") { u64 p = conc(A0(0)); stAt(vc(p + 1), 1, 8, vc(0)); hbRelease(p); }
B1("__cxa_allocate_exception") { u64 n = conc(A0(0)); V p = doMalloc(n + 16); memSet(p, vc(0), n + 16); RET(p); }
B1("__cxa_free_exception") { }
B1("__cxa_throw") { u64 o = conc(A0(0)), t = conc(A0(1)); g_cur->excObj = o; g_cur->excType = t; doUnwind(o, t); }
B1("__cxa_begin_catch") { V o = A0(0); g_cur->caught.push_back(conc(o)); g_cur->caught.push_back(g_cur->excType); RET(o); }
B1("__cxa_get_exception_ptr") { RET(A0(0)); }
B1("__cxa_end_catch") { if (g_cur->caught.size() >= 2) { g_cur->caught.pop_back(); g_cur->caught.pop_back(); } }
B1("__cxa_rethrow") { if (g_cur->caught.size() < 2) fatalViolation("exc", "rethrow with no exception"); u64 t = g_cur->caught.back(), o = g_cur->caught[g_cur->caught.size() - 2]; doUnwind(o, t); }
BP("llvm.eh.typeid.for") { RET(vc(typeidSel(conc(A0(0))))); }
static u64 stdType(const char *n) { GlobalVariable *g = M->getNamedGlobal(n); if (g) return globalAddr(g); static std::map<std::string, u64> made; u64 &a = made[n]; if (!a) { u32 id = newObj(64, OK_GLOBAL, n, 16); a = g_objs[id].base; } return a; }
void throwStd(const char *ti) { u32 id = newObj(64, OK_HEAP, "exception", 16); memset(g_objs[id].data, 0, 64); u64 t = stdType(ti); g_cur->excObj = g_objs[id].base; g_cur->excType = t; doUnwind(g_objs[id].base, t); }
#define THROWER(n, t) B1(n) { throwStd(t); }
THROWER("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error")
THROWER("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range")
THROWER("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range")
THROWER("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error")
THROWER("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument")
THROWER("_ZSt20__throw_system_errori", "_ZTISt13runtime_error")
THROWER("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error")
THROWER("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc")
THROWER("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length")
THROWER("__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length")
THROWER("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast")
THROWER("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call")
static void excCtor(CallInfo &ci, Frame &f) { }
static Reg ec1("_ZNSt13runtime_errorC", excCtor, true), ec2("_ZNSt12out_of_rangeC", excCtor, true), ec3("_ZNSt11logic_errorC", excCtor, true), ec4("_ZNSt16invalid_argumentC", excCtor, true), ec5("_ZNSt12length_errorC", excCtor, true), ed1("_ZNSt13runtime_errorD", excCtor, true), ed2("_ZNSt12out_of_rangeD", excCtor, true), ed3("_ZNSt11logic_errorD", excCtor, true), ed4("_ZNSt16invalid_argumentD", excCtor, true), ed5("_ZNSt9exceptionD", excCtor, true), ed6("_ZNSt9bad_allocD", excCtor, true);
B1("_ZNSt8ios_base4InitC1Ev") {}
B1("_ZNSt8ios_base4InitD1Ev") {}
B1("__dynamic_cast") { incompletePath("dynamic_cast"); }
// ---------------------------------------------------------------- threads
bool threadEnabled(Thread *t) {
	switch (t->state) { case 0: return true; case 3: return false;
	case 1: return g_threads[t->waitOn]->state == 3;
	case 2: { Obj *o = lookupObj(t->waitOn); return o && !(o->flags & OK_DEAD) && o->data[t->waitOn - o->base] == 0; }
	default: return false; } }
static u64 nlive() { u64 n = 0; for (auto *t : g_threads) n += t->state != 3; return n; }
B1("pthread_create") {
	if (schedPoint()) { g_retry = true; return; }
	Function *F = nullptr; u64 fa = conc(A0(2)); for (auto &x : *M) if (globalAddr(&x) == fa) F = &x; if (!F) incompletePath("pthread_create target");
	V arg = A0(3); Thread *t = new Thread(); t->id = g_threads.size(); t->state = 0; t->vclock = g_cur->vclock; t->vclock.resize(t->id + 1); t->vclock[t->id] = 1; t->yielded = false; if (g_cur->vclock.size() <= (size_t)t->id) g_cur->vclock.resize(t->id + 1); g_cur->vclock[g_cur->id]++;
	stAt(A0(0), 8, 64, vc(t->id)); RET(vc(0)); Thread *me = g_cur; g_threads.push_back(t); g_cur = t; pushCall(F, nullptr, {arg}); g_cur = me; }
B1("pthread_join") { u64 id = conc(A0(0)); if (id >= g_threads.size()) fatalViolation("mem", "join of a bad thread"); Thread *t = g_threads[id]; if (t->state != 3) { g_cur->state = 1; g_cur->waitOn = id; g_retry = true; return; } hbJoinThread(t); if (ci.args.size() > 1) { u64 rp = conc(A0(1)); if (rp) stAt(vc(rp), 8, 64, t->retval); } RET(vc(0)); }
B1("pthread_detach") { RET(vc(0)); }
B1("pthread_self") { RET(vc(g_cur->id)); }
B1("sched_yield") { if (schedPoint()) { g_retry = true; return; } RET(vc(0)); }
B1("pthread_mutex_init") { stAt(A0(0), 1, 8, vc(0)); RET(vc(0)); }
B1("pthread_mutex_destroy") { RET(vc(0)); }
B1("pthread_mutex_lock") { if (schedPoint()) { g_retry = true; return; } u64 a = conc(A0(0)); if (conc(ldAt(vc(a), 1, 8))) { g_cur->state = 2; g_cur->waitOn = a; g_retry = true; return; } stAt(vc(a), 1, 8, vc(1)); hbAcquire(a); RET(vc(0)); }
B1("pthread_mutex_trylock") { if (schedPoint()) { g_retry = true; return; } u64 a = conc(A0(0)); if (conc(ldAt(vc(a), 1, 8))) { RET(vc(16)); return; } stAt(vc(a), 1, 8, vc(1)); hbAcquire(a); RET(vc(0)); }
B1("pthread_mutex_unlock") { u64 a = conc(A0(0)); stAt(vc(a), 1, 8, vc(0)); hbRelease(a); RET(vc(0)); }
B1("__gthread_active_p") { RET(vc(1)); }
B1("__pthread_key_create") { RET(vc(0)); }

// ---------------------------------------------------------------- harness API
static void logBytes(Ref &r, u64 i, Expr *e) { storeBytes(r, i, 1, 8, fromE(e)); }
static std::string inName(V v) { std::string s = readCStr(v); for (char &c : s) if (c == ' ') c = '_'; return s; }
B1("sym_bytes") { V p = A0(0); u64 n = conc(A0(1)); std::string nm = inName(A0(2)); Ref r = resolve(p, n, true); for (u64 i = 0; i < n; i++) { Expr *e = freshVar(nm, 8, 0, 255); logBytes(r, i, e); } }
B1("sym_u8") { RET(fromE(freshVar(inName(A0(0)), 8, 0, ~0ULL))); }
B1("sym_u16") { RET(fromE(freshVar(inName(A0(0)), 16, 0, ~0ULL))); }
B1("sym_u32") { RET(fromE(freshVar(inName(A0(0)), 32, 0, ~0ULL))); }
B1("sym_u64") { RET(fromE(freshVar(inName(A0(0)), 64, 0, ~0ULL))); }
B1("sym_bool") { Expr *e = freshVar(inName(A0(0)), 1, 0, 1); RET(fromE(mkZExt(e, ci.w))); }
static Expr *ranged(u64 lo, u64 hi, const std::string &nm) { unsigned w = hi ? 64 - __builtin_clzll(hi) : 1; if (w < 2) w = 2; return mkZExt(freshVar(nm, w, lo, hi), 64); }
B1("sym_range") { u64 lo = conc(A0(0)), hi = conc(A0(1)); RET(fromE(ranged(lo, hi, inName(A0(2))))); }
B1("sym_choose") { u64 n = conc(A0(0)); if (n <= 1) { freshVar(inName(A0(1)), 64, 0, 0); RET(vc(0)); return; } Expr *e = ranged(0, n - 1, inName(A0(1))); RET(vc(concretize(e))); }
B1("sym_concretize") { RET(vc(conc(A0(0)))); }
B1("sym_assume") { V c = A0(0); if (!c.e) { if (!c.c) finishPath(1); return; } assume(mkNot(mk(EQ, c.e, mkConst(0, c.e->w)))); }
B1("sym_check") {
	V c = A0(0); S->asserts++;
	if (!c.e) { S->assertsConcrete++; if (!c.c) fatalViolation("check", readCStr(A0(1))); return; }
	Expr *ok = mkNot(mk(EQ, c.e, mkConst(0, c.e->w))); if (ok->k == CONST) { if (!ok->c) fatalViolation("check", readCStr(A0(1))); return; }
	if (!evalExpr(ok)) { violation("check", readCStr(A0(1))); assume(ok); return; }
	int r = solve(mkNot(ok)); if (r == 1) { std::vector<u64> sv = g_model; g_model = g_qmodel; g_model.resize(g_vars.size()); g_stamp++; violation("check", readCStr(A0(1))); g_model = sv; g_stamp++; }
	if (r < 0) incompletePath("solver unknown at check " + readCStr(A0(1)));
	assertPC(ok); }
B1("sym_fail") { S->asserts++; fatalViolation("check", readCStr(A0(0))); }
B1("sym_reach") {
	std::string n = readCStr(A0(0)); u32 k = S->reachN; for (u32 i = 0; i < k; i++) if (n == S->reachName[i]) { S->reachCount[i]++; return; }
	u32 e = 0; while (!S->reachLock.compare_exchange_weak(e, 1)) e = 0; k = S->reachN; u32 i = 0; for (; i < k; i++) if (n == S->reachName[i]) break; if (i == k && k < 128) { snprintf(S->reachName[k], 64, "%s", n.c_str()); S->reachN = k + 1; } S->reachLock = 0; if (i < 128) S->reachCount[i]++; }
B1("sym_out") { g_outs.push_back(A0(0)); }
B1("sym_arg") { std::string n = readCStr(A0(0)); auto it = g_args.find(n); RET(it == g_args.end() ? A0(1) : vc(strtoull(it->second.c_str(), 0, 0))); }
B1("sym_is_symbolic") { RET(vc(A0(0).e != nullptr)); }
B1("sym_stop") { finishPath(0); }
B1("sym_kill") { finishPath(1); }
B1("sym_print") { if (g_verbose) { V v = A0(1); fprintf(stderr, "[print] %s = %s\n", readCStr(A0(0)).c_str(), v.e ? exprStr(v.e).c_str() : std::to_string(v.c).c_str()); } }
B1("sym_not_native") { RET(vc(1)); }
B1("sym_threads") { RET(vc(nlive())); }
B1("sym_block_size") { Obj *o = lookupObj(conc(A0(0))); RET(vc(o && !(o->flags & OK_DEAD) ? o->size : 0)); }
