#include "expr.h"
std::vector<VarInfo> g_vars;
std::vector<u64> g_model;
u32 g_stamp = 1;
bool g_nosimplify = false;
Z3_context g_ctx;
u64 g_nexpr = 0;

static Expr **table; static u64 tsize = 0;
static char *arena, *arena_end;
static Expr *allocExpr() {
	if (arena + sizeof(Expr) > arena_end) { size_t n = 1 << 20; arena = (char *)malloc(n); arena_end = arena + n; }
	Expr *e = (Expr *)arena; arena += sizeof(Expr); return e;
}
static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }

static void computeBits(Expr *e) {
	unsigned w = e->w; if (w > 64) { e->kz = e->ko = 0; e->lo = 0; e->hi = ~0ULL; return; }
	u64 m = maskw(w), kz = 0, ko = 0, lo = 0, hi = m; Expr *a = e->a, *b = e->b, *d = e->d;
	auto W64 = [](Expr *x) { return x && x->w <= 64; };
	switch (e->k) {
	case CONST: kz = ~e->c & m; ko = e->c; lo = hi = e->c; break;
	case AND: kz = a->kz | b->kz; ko = a->ko & b->ko; hi = std::min(a->hi, b->hi); break;
	case OR: kz = a->kz & b->kz; ko = a->ko | b->ko; lo = std::max(a->lo, b->lo); break;
	case XOR: kz = (a->kz & b->kz) | (a->ko & b->ko); ko = (a->kz & b->ko) | (a->ko & b->kz); break;
	case ADD: {
		u64 s = a->hi + b->hi; if (s >= a->hi && s <= m) { lo = a->lo + b->lo; hi = s; }
		else if (b->k == CONST) { // subtraction of a constant in disguise: a + c where c = -n, a->lo >= n
			u64 n = (0 - b->c) & m; if (n <= a->lo) { lo = a->lo - n; hi = a->hi - n; } }
		// low known zeros
		u64 tz = std::min(~a->kz ? __builtin_ctzll(~a->kz) : 64, ~b->kz ? __builtin_ctzll(~b->kz) : 64); if (tz >= 64) tz = 63; kz |= maskw(tz) & m; if (!tz) kz = 0;
		break; }
	case SUB: if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; } break;
	case MUL: { unsigned __int128 p = (unsigned __int128)a->hi * b->hi; if (p <= m) { hi = (u64)p; lo = a->lo * b->lo; }
		unsigned tz = (~a->kz ? __builtin_ctzll(~a->kz) : 64) + (~b->kz ? __builtin_ctzll(~b->kz) : 64); if (tz > 63) tz = 63; if (tz) kz |= maskw(tz) & m; break; }
	case UDIV: if (b->lo) { hi = a->hi / b->lo; lo = a->lo / b->hi; } break;
	case UREM: if (b->lo) { hi = std::min(a->hi, b->hi - 1); } break;
	case SHL: if (b->k == CONST && b->c < w) { kz = ((a->kz << b->c) | maskw(b->c)) & m; if (!b->c) kz = a->kz; ko = (a->ko << b->c) & m; } break;
	case LSHR: hi = b->lo < 64 ? a->hi >> b->lo : 0; lo = b->hi < 64 ? a->lo >> b->hi : 0; break;
	case CONCAT: if (W64(a) && W64(b)) { kz = (a->kz << b->w) | b->kz; ko = (a->ko << b->w) | b->ko; lo = (a->lo << b->w) | b->lo; hi = (a->hi << b->w) | b->hi; } break;
	case EXTRACT: if (W64(a)) { kz = (a->kz >> e->aux) & m; ko = (a->ko >> e->aux) & m; if (e->aux + w >= a->w || (a->hi >> e->aux) <= m) { if ((a->hi >> e->aux) <= m) { hi = a->hi >> e->aux; lo = a->lo >> e->aux; } } } break;
	case ZEXT: if (W64(a)) { kz = a->kz | (m & ~maskw(a->w)); ko = a->ko; lo = a->lo; hi = a->hi; } break;
	case SEXT: if (W64(a)) { u64 sb = 1ULL << (a->w - 1); kz = a->kz; ko = a->ko; if (a->kz & sb) { kz |= m & ~maskw(a->w); lo = a->lo; hi = a->hi; } else if (a->ko & sb) ko |= m & ~maskw(a->w); else { kz &= maskw(a->w); } } break;
	case ITE: kz = b->kz & d->kz; ko = b->ko & d->ko; lo = std::min(b->lo, d->lo); hi = std::max(b->hi, d->hi); break;
	case VAR: lo = e->lo; hi = e->hi; break;
	default: break;
	}
	// mutual refinement
	if (ko > lo) lo = ko;
	if ((m & ~kz) < hi) hi = m & ~kz;
	kz |= m & ~fillbelow(hi);
	e->kz = kz; e->ko = ko; e->lo = lo; e->hi = hi;
}

static Expr *intern(Kind k, unsigned w, u32 aux, u64 c, Expr *a, Expr *b, Expr *d, const APInt *big = nullptr, u64 vlo = 0, u64 vhi = ~0ULL) {
	u64 h = mix(mix(mix(mix(mix((u64)k * 131 + w, aux), c), (u64)a), (u64)b), (u64)d);
	if (big) for (unsigned i = 0; i < big->getNumWords(); i++) h = mix(h, big->getRawData()[i]);
	if (!tsize) { tsize = 1 << 16; table = (Expr **)calloc(tsize, sizeof(Expr *)); }
	for (Expr *e = table[h & (tsize - 1)]; e; e = e->next)
		if (e->hash == h && e->k == k && e->w == w && e->aux == aux && e->c == c && e->a == a && e->b == b && e->d == d && (!big || *big == *e->big)) return e;
	Expr *e = allocExpr(); memset(e, 0, sizeof *e);
	e->k = k; e->w = w; e->aux = aux; e->c = c; e->a = a; e->b = b; e->d = d; e->hash = h; e->id = g_nexpr++;
	e->fp = k >= FADD || (a && a->fp) || (b && b->fp) || (d && d->fp);
	if (big) e->big = new APInt(*big);
	if (k == VAR) { e->lo = vlo; e->hi = vhi; }
	computeBits(e);
	if (g_nexpr > tsize) {
		u64 ns = tsize * 2; Expr **nt = (Expr **)calloc(ns, sizeof(Expr *));
		for (u64 i = 0; i < tsize; i++) for (Expr *x = table[i]; x;) { Expr *n = x->next; x->next = nt[x->hash & (ns - 1)]; nt[x->hash & (ns - 1)] = x; x = n; }
		free(table); table = nt; tsize = ns;
	}
	e->next = table[h & (tsize - 1)]; table[h & (tsize - 1)] = e;
	if (!g_nosimplify && w <= 64 && k != CONST && e->lo == e->hi) { return mkConst(e->lo, w); }
	return e;
}

Expr *mkConst(u64 v, unsigned w) {
	if (w > 64) return mkBig(APInt(w, v));
	return intern(CONST, w, 0, v & maskw(w), nullptr, nullptr, nullptr);
}
Expr *mkBig(const APInt &v) {
	if (v.getBitWidth() <= 64) return mkConst(v.getZExtValue(), v.getBitWidth());
	return intern(CONST, v.getBitWidth(), 0, 0, nullptr, nullptr, nullptr, &v);
}
Expr *mkVar(const std::string &name, unsigned w, u64 lo, u64 hi) {
	u64 idx = g_vars.size(); if (hi > maskw(w)) hi = maskw(w); g_vars.push_back({name, w, lo, hi});
	g_model.push_back(lo);
	return intern(VAR, w, 0, idx, nullptr, nullptr, nullptr, nullptr, lo, hi);
}
static APInt constAP(Expr *e) { return e->w > 64 ? *e->big : APInt(e->w, e->c); }

u64 foldBin(Kind k, u64 a, u64 b, unsigned w) {
	u64 m = maskw(w);
	switch (k) {
	case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
	case UDIV: return b ? a / b : m; case UREM: return b ? a % b : a;
	case SDIV: { i64 x = sext64(a, w), y = sext64(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
	case SREM: { i64 x = sext64(a, w), y = sext64(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
	case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
	case SHL: return b >= w ? 0 : (a << b) & m; case LSHR: return b >= w ? 0 : a >> b;
	case ASHR: { i64 x = sext64(a, w); return (u64)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
	case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
	case SLT: return sext64(a, w) < sext64(b, w); case SLE: return sext64(a, w) <= sext64(b, w);
	default: abort();
	}
}
static APInt foldBinBig(Kind k, const APInt &a, const APInt &b) {
	unsigned w = a.getBitWidth();
	switch (k) {
	case ADD: return a + b; case SUB: return a - b; case MUL: return a * b;
	case UDIV: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b); case UREM: return b.isZero() ? a : a.urem(b);
	case SDIV: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b); case SREM: return b.isZero() ? a : a.srem(b);
	case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
	case SHL: return b.uge(w) ? APInt(w, 0) : a.shl(b); case LSHR: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
	case ASHR: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr(b);
	case EQ: return APInt(1, a == b); case ULT: return APInt(1, a.ult(b)); case ULE: return APInt(1, a.ule(b));
	case SLT: return APInt(1, a.slt(b)); case SLE: return APInt(1, a.sle(b));
	default: abort();
	}
}
static inline bool isCmp(Kind k) { return k >= EQ && k <= SLE; }
static inline bool isC(Expr *e) { return e->k == CONST; }
static inline bool isC64(Expr *e) { return e->k == CONST && e->w <= 64; }
static inline bool isZero(Expr *e) { return e->k == CONST && (e->w <= 64 ? e->c == 0 : e->big->isZero()); }
static inline bool isOnes(Expr *e) { return e->k == CONST && (e->w <= 64 ? e->c == maskw(e->w) : e->big->isAllOnes()); }

Expr *mkNot(Expr *a) {
	if (a->w == 1) switch (a->k) {
		case ULT: return mk(ULE, a->b, a->a); case ULE: return mk(ULT, a->b, a->a);
		case SLT: return mk(SLE, a->b, a->a); case SLE: return mk(SLT, a->b, a->a);
		default: break;
	}
	return mk(XOR, a, a->w > 64 ? mkBig(APInt::getAllOnes(a->w)) : mkConst(maskw(a->w), a->w));
}

// linear normal form: is a - b constant (1: equal, 0: different), a single term (2: *t == *c), or neither (-1)
#include <map>
static int linDiff(Expr *a, Expr *b, Expr **t, u64 *cc) {
	if (a->w > 64 || !(a->k == ADD || a->k == SUB || b->k == ADD || b->k == SUB)) return -1;
	std::map<u32, std::pair<Expr *, u64>, std::greater<u32>> todo, leaf; u64 c = 0; unsigned w = a->w; u64 m = maskw(w); int steps = 0;
	auto add = [&](std::map<u32, std::pair<Expr *, u64>, std::greater<u32>> &mp, Expr *e, u64 k) { auto r = mp.insert({e->id, {e, k & m}}); if (!r.second) { r.first->second.second = (r.first->second.second + k) & m; } };
	add(todo, a, 1); add(todo, b, -1ULL);
	while (!todo.empty()) {
		if (++steps > 3000 || leaf.size() > 200) return -1;
		auto it = todo.begin(); Expr *e = it->second.first; u64 k = it->second.second; todo.erase(it); if (!k) continue;
		switch (e->k) {
		case CONST: c += k * e->c; break;
		case ADD: add(todo, e->a, k); add(todo, e->b, k); break;
		case SUB: add(todo, e->a, k); add(todo, e->b, 0 - k); break;
		case MUL: if (e->b->k == CONST) { add(todo, e->a, k * e->b->c); break; } add(leaf, e, k); break;
		case XOR: if (e->b->k == CONST && e->b->c == m) { add(todo, e->a, 0 - k); c -= k; break; } add(leaf, e, k); break;
		default: add(leaf, e, k);
		}
	}
	c &= m; int n = 0; Expr *one = nullptr; u64 ok = 0; for (auto &x : leaf) if (x.second.second) { n++; one = x.second.first; ok = x.second.second; if (n > 1) return -1; }
	if (!n) return c == 0;
	if (ok == 1) { *t = one; *cc = (0 - c) & m; return 2; } if (ok == m) { *t = one; *cc = c; return 2; }
	return -1;
}
Expr *mk(Kind k, Expr *a, Expr *b) {
	unsigned w = a->w, rw = isCmp(k) ? 1 : w;
	if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %u %u\n", k, a->w, b->w); abort(); }
	if (isC(a) && isC(b)) { if (w <= 64) return mkConst(foldBin(k, a->c, b->c, w), rw); return mkBig(foldBinBig(k, *a->big, *b->big)); }
	if (g_nosimplify) return intern(k, rw, 0, 0, a, b, nullptr);
	bool comm = k == ADD || k == MUL || k == AND || k == OR || k == XOR || k == EQ;
	if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
	switch (k) {
	case ADD:
		if (isZero(b)) return a;
		if (w == 1) return mk(XOR, a, b);
		if (isC(b) && a->k == ADD && isC(a->b)) return mk(ADD, a->a, mk(ADD, a->b, b));
		if (isC(b) && a->k == SUB && isC(a->a)) return mk(SUB, mk(ADD, a->a, b), a->b);
		if (isC(b) && a->k == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mk(ADD, a->b, b), mk(ADD, a->d, b));
		if (!isC(b)) { // hoist constants outward
			if (a->k == ADD && isC(a->b)) return mk(ADD, mk(ADD, a->a, b), a->b);
			if (b->k == ADD && isC(b->b)) return mk(ADD, mk(ADD, a, b->a), b->b);
			if (a->k == SUB && a->b == b) return a->a;
			if (b->k == SUB && b->b == a) return b->a;
		}
		if (w <= 64 && !(~(a->kz | b->kz) & maskw(w))) return mk(OR, a, b);
		break;
	case SUB:
		if (isZero(b)) return a;
		if (a == b) return mkConst(0, w);
		if (w == 1) return mk(XOR, a, b);
		if (isC(b)) return mk(ADD, a, mk(SUB, mkConst(0, w), b));
		if (a->k == ADD && a->b == b) return a->a;
		if (a->k == ADD && a->a == b) return a->b;
		if (a->k == ADD && isC(a->b)) return mk(ADD, mk(SUB, a->a, b), a->b);
		if (b->k == ADD && isC(b->b)) return mk(SUB, mk(SUB, a, b->a), b->b);
		break;
	case MUL:
		if (isZero(b)) return b;
		if (w == 1) return mk(AND, a, b);
		if (isC64(b)) { if (b->c == 1) return a; if ((b->c & (b->c - 1)) == 0) return mk(SHL, a, mkConst(__builtin_ctzll(b->c), w)); }
		if (isC(b) && a->k == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mk(MUL, a->b, b), mk(MUL, a->d, b));
		break;
	case UDIV:
		if (isC64(b)) { if (b->c == 1) return a; if (b->c && (b->c & (b->c - 1)) == 0) return mk(LSHR, a, mkConst(__builtin_ctzll(b->c), w)); }
		break;
	case UREM:
		if (isC64(b)) { if (b->c && (b->c & (b->c - 1)) == 0) return mk(AND, a, mkConst(b->c - 1, w)); }
		if (w <= 64 && a->hi < b->lo) return a;
		break;
	case AND:
		if (isZero(b)) return b; if (isOnes(b)) return a; if (a == b) return a;
		if (w == 1) { if (a->k == XOR && isOnes(a->b) && a->a == b) return mkConst(0, 1); if (b->k == XOR && isOnes(b->b) && b->a == a) return mkConst(0, 1); 
			if (a->k == AND && (a->a == b || a->b == b)) return a; if (b->k == AND && (b->a == a || b->b == a)) return b; }
		if (w <= 64) {
			if (isC(b)) {
				u64 need = b->c;
				if (!(~a->kz & maskw(w) & ~need)) return a;           // mask keeps all possibly set bits
				if (a->k == AND && isC(a->b)) return mk(AND, a->a, mk(AND, a->b, b));
				// contiguous mask -> concat/extract
				u64 x = need; unsigned lo = __builtin_ctzll(x); u64 t = x >> lo;
				if ((t & (t + 1)) == 0) {
					unsigned len = __builtin_popcountll(t);
					Expr *e = mkExtract(a, lo, len);
					if (lo) e = mkConcat(e, mkConst(0, lo));
					return mkZExt(e, w);
				}
				if (a->k == ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mk(AND, a->b, b), mk(AND, a->d, b));
			}
		}
		break;
	case OR:
		if (isZero(b)) return a; if (isOnes(b)) return b; if (a == b) return a;
		if (w == 1) { if (a->k == XOR && isOnes(a->b) && a->a == b) return mkConst(1, 1); if (b->k == XOR && isOnes(b->b) && b->a == a) return mkConst(1, 1); 
			if (a->k == OR && (a->a == b || a->b == b)) return a; if (b->k == OR && (b->a == a || b->b == a)) return b; }
		// fallthrough into the disjoint test
		[[fallthrough]];
	case XOR:
		if (k == XOR) {
			if (isZero(b)) return a; if (a == b) return mkConst(0, w);
			if (isC(b) && a->k == XOR && isC(a->b)) return mk(XOR, a->a, mk(XOR, a->b, b));
			if (w == 1 && isOnes(b)) switch (a->k) {
				case ULT: return mk(ULE, a->b, a->a); case ULE: return mk(ULT, a->b, a->a);
				case SLT: return mk(SLE, a->b, a->a); case SLE: return mk(SLT, a->b, a->a);
				case ITE: if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkNot(a->b), mkNot(a->d)); break;
				default: break; }
			if (a->k == XOR && (a->a == b)) return a->b; if (a->k == XOR && a->b == b) return a->a;
			if (b->k == XOR && (b->a == a)) return b->b; if (b->k == XOR && b->b == a) return b->a;
		}
		if (w <= 64 && w > 1) { // disjoint split -> concat
			u64 m = maskw(w), pa = ~a->kz & m, pb = ~b->kz & m; // possible ones
			for (int s = 0; s < 2; s++) {
				// pb entirely below pa ?
				if (pa && pb) { unsigned cut = 64 - __builtin_clzll(pb); if (cut < w && (pa & maskw(cut)) == 0) return mkConcat(mkExtract(a, cut, w - cut), mkExtract(b, 0, cut)); }
				std::swap(pa, pb); std::swap(a, b);
			}
		}
		if (w <= 64 && isC(b) && a->k == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mk(k, a->b, b), mk(k, a->d, b));
		if (isC(b) && a->k == CONCAT) return mkConcat(mk(k, a->a, mkExtract(b, a->b->w, a->a->w)), mk(k, a->b, mkExtract(b, 0, a->b->w)));
		if (a->k == CONCAT && b->k == CONCAT && a->b->w == b->b->w) return mkConcat(mk(k, a->a, b->a), mk(k, a->b, b->b));
		break;
	case SHL:
		if (isZero(b)) return a; if (isZero(a)) return a;
		if (isC(b)) { u64 s = b->w > 64 ? b->big->getLimitedValue() : b->c; if (s >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
		break;
	case LSHR:
		if (isZero(b)) return a; if (isZero(a)) return a;
		if (isC(b)) { u64 s = b->w > 64 ? b->big->getLimitedValue() : b->c; if (s >= w) return mkConst(0, w); return mkZExt(mkExtract(a, s, w - s), w); }
		break;
	case ASHR:
		if (isZero(b)) return a; if (isZero(a)) return a;
		if (isC(b)) { u64 s = b->w > 64 ? b->big->getLimitedValue() : b->c; if (s >= w) s = w - 1; if (w <= 64 && (a->kz >> (w - 1) & 1)) return mk(LSHR, a, mkConst(s, w)); return mkSExt(mkExtract(a, s, w - s), w); }
		break;
	case EQ:
		if (a == b) return mkConst(1, 1);
		if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); }
		if (w <= 64) {
			if ((a->kz & b->ko) || (a->ko & b->kz) || a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
		}
		if (isC(b)) {
			if (a->k == ADD && isC(a->b)) return mk(EQ, a->a, mk(SUB, b, a->b));
			if (a->k == XOR && isC(a->b)) return mk(EQ, a->a, mk(XOR, b, a->b));
			if (a->k == SUB && isC(a->a)) return mk(EQ, a->b, mk(SUB, a->a, b));
			if (a->k == SUB && isZero(b)) return mk(EQ, a->a, a->b);
			if (a->k == XOR && isZero(b)) return mk(EQ, a->a, a->b);
			if (a->k == ZEXT) { Expr *hi = mkExtract(b, a->a->w, w - a->a->w); if (!isZero(hi)) return mkConst(0, 1); return mk(EQ, a->a, mkExtract(b, 0, a->a->w)); }
			if (a->k == SEXT) { Expr *t = mkExtract(b, 0, a->a->w); if (mkSExt(t, w) != b) return mkConst(0, 1); return mk(EQ, a->a, t); }
			if (a->k == CONCAT) return mk(AND, mk(EQ, a->a, mkExtract(b, a->b->w, a->a->w)), mk(EQ, a->b, mkExtract(b, 0, a->b->w)));
			if (a->k == ITE) {
				if (isC(a->b) && isC(a->d)) { bool t = a->b == b, f = a->d == b; if (t && f) return mkConst(1, 1); if (t) return a->a; if (f) return mkNot(a->a); return mkConst(0, 1); }
				if (isC(a->b) || isC(a->d)) { Expr *t = mk(EQ, a->b, b), *f = mk(EQ, a->d, b); return mkIte(a->a, t, f); }
			}
		}
		if (a->k == ADD && isC(a->b) && b->k == ADD && isC(b->b)) { if (a->b == b->b) return mk(EQ, a->a, b->a); }
		if (a->k == ZEXT && b->k == ZEXT) { unsigned mw = std::max(a->a->w, b->a->w); return mk(EQ, mkZExt(a->a, mw), mkZExt(b->a, mw)); }
		if (a->k == CONCAT && b->k == CONCAT && a->b->w == b->b->w) return mk(AND, mk(EQ, a->a, b->a), mk(EQ, a->b, b->b));
		{ Expr *t; u64 c; int r = linDiff(a, b, &t, &c); if (r == 0 || r == 1) return mkConst(r, 1); if (r == 2 && !(t == a && isC(b))) return mk(EQ, t, mkConst(c, w)); }
		if (a->k == ADD && (a->a == b)) return mk(EQ, a->b, mkConst(0, w)); if (a->k == ADD && a->b == b) return mk(EQ, a->a, mkConst(0, w));
		if (b->k == ADD && (b->a == a)) return mk(EQ, b->b, mkConst(0, w)); if (b->k == ADD && b->b == a) return mk(EQ, b->a, mkConst(0, w));
		break;
	case ULT:
		if (a == b) return mkConst(0, 1);
		if (isZero(b)) return mkConst(0, 1);
		if (w <= 64) { if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(0, 1); }
		if (w == 1) return mk(AND, mkNot(a), b);
		if (isC64(b) && b->c == 1) return mk(EQ, a, mkConst(0, w));
		if (isC64(a) && a->c == 0) return mkNot(mk(EQ, b, mkConst(0, w)));
		if (a->k == ZEXT && b->k == ZEXT) { unsigned mw = std::max(a->a->w, b->a->w); if (mw < w) return mk(ULT, mkZExt(a->a, mw), mkZExt(b->a, mw)); }
		if (a->k == ZEXT && isC64(b)) { if (b->c > maskw(a->a->w)) return mkConst(1, 1); return mk(ULT, a->a, mkConst(b->c, a->a->w)); }
		if (b->k == ZEXT && isC64(a)) { if (a->c >= maskw(b->a->w)) return mkConst(0, 1); return mk(ULT, mkConst(a->c, b->a->w), b->a); }
		if (isC(b) && a->k == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mk(k, a->b, b), mk(k, a->d, b));
		if (isC(a) && b->k == ITE && isC(b->b) && isC(b->d)) return mkIte(b->a, mk(k, a, b->b), mk(k, a, b->d));
		break;
	case ULE:
		if (a == b) return mkConst(1, 1);
		if (isZero(a)) return mkConst(1, 1);
		if (isOnes(b)) return mkConst(1, 1);
		if (w <= 64) { if (a->hi <= b->lo) return mkConst(1, 1); if (a->lo > b->hi) return mkConst(0, 1); }
		if (w == 1) return mk(OR, mkNot(a), b);
		if (isC64(b) && b->c == 0) return mk(EQ, a, b);
		if (a->k == ZEXT && b->k == ZEXT) { unsigned mw = std::max(a->a->w, b->a->w); if (mw < w) return mk(ULE, mkZExt(a->a, mw), mkZExt(b->a, mw)); }
		if (a->k == ZEXT && isC64(b)) { if (b->c >= maskw(a->a->w)) return mkConst(1, 1); return mk(ULE, a->a, mkConst(b->c, a->a->w)); }
		if (b->k == ZEXT && isC64(a)) { if (a->c > maskw(b->a->w)) return mkConst(0, 1); return mk(ULE, mkConst(a->c, b->a->w), b->a); }
		if (isC(b) && a->k == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mk(k, a->b, b), mk(k, a->d, b));
		if (isC(a) && b->k == ITE && isC(b->b) && isC(b->d)) return mkIte(b->a, mk(k, a, b->b), mk(k, a, b->d));
		break;
	case SLT: case SLE:
		if (a == b) return mkConst(k == SLE, 1);
		if (w <= 64) {
			u64 s = 1ULL << (w - 1); bool an = a->kz & s, ap = a->ko & s, bn = b->kz & s, bp = b->ko & s; // an: non-negative
			if ((an || ap) && (bn || bp)) { if (an && bp) return mkConst(0, 1); if (ap && bn) return mkConst(1, 1); return mk(k == SLT ? ULT : ULE, a, b); }
			if (w == 1) return k == SLT ? mk(AND, a, mkNot(b)) : mk(OR, a, mkNot(b));
			if (isZero(b) && k == SLT) return mkExtract(a, w - 1, 1);
			if (isC64(b) && b->c == maskw(w) && k == SLE) return mkExtract(a, w - 1, 1);
			if (isC64(a) && a->c == maskw(w) && k == SLT) return mkNot(mkExtract(b, w - 1, 1));
			if (isZero(a) && k == SLE) return mkNot(mkExtract(b, w - 1, 1));
		}
		if (a->k == SEXT && b->k == SEXT) { unsigned mw = std::max(a->a->w, b->a->w); if (mw < w) return mk(k, mkSExt(a->a, mw), mkSExt(b->a, mw)); }
		if (isC(b) && a->k == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mk(k, a->b, b), mk(k, a->d, b));
		if (isC(a) && b->k == ITE && isC(b->b) && isC(b->d)) return mkIte(b->a, mk(k, a, b->b), mk(k, a, b->d));
		break;
	default: break;
	}
	if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
	return intern(k, rw, 0, 0, a, b, nullptr);
}

Expr *mkIte(Expr *c, Expr *t, Expr *e) {
	if (isC(c)) return c->c ? t : e;
	if (t == e) return t;
	if (g_nosimplify) return intern(ITE, t->w, 0, 0, c, t, e);
	if (c->k == XOR && isOnes(c->b)) return mkIte(c->a, e, t);
	if (t->w == 1) {
		if (isC(t)) return t->c ? mk(OR, c, e) : mk(AND, mkNot(c), e);
		if (isC(e)) return e->c ? mk(OR, mkNot(c), t) : mk(AND, c, t);
		if (t == c) return mk(OR, c, e);
		if (e == c) return mk(AND, c, t);
	}
	if (t->k == ITE && t->a == c) t = t->b;
	if (e->k == ITE && e->a == c) e = e->d;
	if (t == e) return t;
	// ite(c1, x, ite(c2, x, y)) -> ite(c1|c2, x, y)
	if (e->k == ITE && e->b == t) return mkIte(mk(OR, c, e->a), t, e->d);
	if (t->k == ITE && t->d == e) return mkIte(mk(AND, c, t->a), t->b, e);
	// factor identical high/low parts
	if (t->k == CONCAT && e->k == CONCAT && t->b->w == e->b->w && (t->a == e->a || t->b == e->b)) return mkConcat(mkIte(c, t->a, e->a), mkIte(c, t->b, e->b));
	if (t->k == ZEXT && e->k == ZEXT && t->a->w == e->a->w) return mkZExt(mkIte(c, t->a, e->a), t->w);
	if (t->w <= 64 && t->w > 1) { // both have known-zero top: narrow
		u64 top = std::max(t->hi, e->hi); unsigned need = top ? 64 - __builtin_clzll(top) : 1;
		if (need < t->w && need > 0 && (t->k == CONST || t->k == ZEXT) && (e->k == CONST || e->k == ZEXT) && !(t->k == CONST && e->k == CONST)) return mkZExt(mkIte(c, mkExtract(t, 0, need), mkExtract(e, 0, need)), t->w);
		if (t->w > 1 && isC(t) && isC(e) && t->c == 1 && e->c == 0) return mkZExt(c, t->w);
		if (t->w > 1 && isC(t) && isC(e) && t->c == 0 && e->c == 1) return mkZExt(mkNot(c), t->w);
	}
	return intern(ITE, t->w, 0, 0, c, t, e);
}

bool g_byteSlice = false; // slicing a value into memory bytes: keep the slices of one sum recognisable
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->w) return a;
	if (lo + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
	if (isC(a)) { if (a->w <= 64) return mkConst(a->c >> lo, w); return mkBig(a->big->extractBits(w, lo)); }
	if (g_nosimplify) return intern(EXTRACT, w, lo, 0, a, nullptr, nullptr);
	switch (a->k) {
	case EXTRACT: return mkExtract(a->a, lo + a->aux, w);
	case CONCAT:
		if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
		if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
		return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
	case ZEXT:
		if (lo >= a->a->w) return mkConst(0, w);
		if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
		return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
	case SEXT:
		if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
		if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), w);
		return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
	case AND: case OR: case XOR: // push through when one side is constant, or the operands decompose
		if (isC(a->b)) return mk(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
		if (w == 1 || a->a->k == CONCAT || a->a->k == ZEXT || a->b->k == CONCAT || a->b->k == ZEXT) return mk(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
		break;
	case ADD: case SUB: case MUL: // low part of modular arithmetic
		if (lo == 0 && a->w > w && w <= 64 && !g_byteSlice) return mk(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
		break;
	case ITE:
		if (isC(a->b) || isC(a->d) || a->b->k == CONCAT || a->b->k == ZEXT || a->d->k == CONCAT || a->d->k == ZEXT) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
		break;
	default: break;
	}
	if (a->w <= 64) { u64 m = maskw(w); if ((((a->kz | a->ko) >> lo) & m) == m) return mkConst(a->ko >> lo, w); }
	return intern(EXTRACT, w, lo, 0, a, nullptr, nullptr);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
	unsigned w = hi->w + lo->w;
	if (isC(hi) && isC(lo)) {
		if (w <= 64) return mkConst((hi->c << lo->w) | lo->c, w);
		return mkBig((constAP(hi).zext(w) << lo->w) | constAP(lo).zext(w));
	}
	if (g_nosimplify) return intern(CONCAT, w, 0, 0, hi, lo, nullptr);
	if (isZero(hi)) return mkZExt(lo, w);
	if (hi->k == ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
	if (hi->k == EXTRACT && lo->k == EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(hi->a, lo->aux, w);
	if (hi->k == EXTRACT && hi->a == lo && hi->aux == lo->w) return mkExtract(hi->a, 0, w);   // (not expected)
	// right-nested canonical form: Concat(Concat(a,b),c) -> Concat(a,Concat(b,c))
	if (hi->k == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
	if (lo->k == CONCAT) {
		Expr *m = lo->a; // try to merge hi with lo's head
		if (isC(hi) && isC(m)) return mkConcat(mkConcat(hi, m), lo->b);
		if (hi->k == EXTRACT && m->k == EXTRACT && hi->a == m->a && hi->aux == m->aux + m->w) return mkConcat(mkExtract(hi->a, m->aux, hi->w + m->w), lo->b);
	}
	// extract of a zext'd high part where value is exhausted, e.g. Concat(Extract(x,..), x_low...) handled above
	return intern(CONCAT, w, 0, 0, hi, lo, nullptr);
}
Expr *mkZExt(Expr *a, unsigned w) {
	if (w == a->w) return a;
	if (isC(a)) { if (w <= 64) return mkConst(a->c, w); return mkBig(constAP(a).zext(w)); }
	if (a->k == ZEXT && !g_nosimplify) return mkZExt(a->a, w);
	return intern(ZEXT, w, 0, 0, a, nullptr, nullptr);
}
Expr *mkSExt(Expr *a, unsigned w) {
	if (w == a->w) return a;
	if (isC(a)) { if (w <= 64) return mkConst((u64)sext64(a->c, a->w), w); return mkBig(constAP(a).sext(w)); }
	if (!g_nosimplify) {
		if (a->k == SEXT) return mkSExt(a->a, w);
		if (a->k == ZEXT) return mkZExt(a->a, w);
		if (a->w <= 64 && (a->kz >> (a->w - 1) & 1)) return mkZExt(a, w);
		if (a->k == ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
	}
	return intern(SEXT, w, 0, 0, a, nullptr, nullptr);
}

// ---------------------------------------------------------------- floating point
static double getF(u64 v, unsigned w) { if (w == 32) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 putF(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }
u64 foldFP(Kind k, unsigned w, u64 av, unsigned wa, u64 bv, u32 aux) {
	switch (k) {
	case FADD: case FSUB: case FMUL: case FDIV:
		if (w == 32) { float a, b, r; u32 x = (u32)av, y = (u32)bv; memcpy(&a, &x, 4); memcpy(&b, &y, 4); r = k == FADD ? a + b : k == FSUB ? a - b : k == FMUL ? a * b : a / b; memcpy(&x, &r, 4); return x; }
		else { double a = getF(av, 64), b = getF(bv, 64); return putF(k == FADD ? a + b : k == FSUB ? a - b : k == FMUL ? a * b : a / b, 64); }
	case FSQRT: if (w == 32) return putF(sqrtf((float)getF(av, 32)), 32); return putF(sqrt(getF(av, 64)), 64);
	case FLT: return getF(av, wa) < getF(bv, wa);
	case FLE: return getF(av, wa) <= getF(bv, wa);
	case FEQ: return getF(av, wa) == getF(bv, wa);
	case FCONV: return putF(getF(av, wa), w);
	case SITOFP: { i64 s = sext64(av, wa); if (w == 32) { float f = (float)s; u32 x; memcpy(&x, &f, 4); return x; } return putF((double)s, 64); }
	case UITOFP: { if (w == 32) { float f = (float)av; u32 x; memcpy(&x, &f, 4); return x; } return putF((double)av, 64); }
	case FPTOSI: { double d = getF(av, wa); if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return (1ULL << (w - 1)); i64 r = (i64)d; if (w < 64 && (r < -(i64)(1LL << (w - 1)) || r > (i64)((1LL << (w - 1)) - 1))) return 1ULL << (w - 1); return (u64)r & maskw(w); }
	case FPTOUI: { double d = getF(av, wa); if (!(d > -1.0 && d < 18446744073709551616.0)) return w == 64 ? 1ULL << 63 : 0; return (u64)d & maskw(w); }
	case FRND: { double d = getF(av, w); d = aux == 0 ? floor(d) : aux == 1 ? ceil(d) : aux == 2 ? trunc(d) : aux == 3 ? nearbyint(d) : round(d); return putF(d, w); }
	default: abort();
	}
}
Expr *mkFP(Kind k, unsigned w, Expr *a, Expr *b, u32 aux) {
	if (isC(a) && (!b || isC(b))) return mkConst(foldFP(k, w, a->c, a->w, b ? b->c : 0, aux), w);
	return intern(k, w, aux, 0, a, b, nullptr);
}

// ---------------------------------------------------------------- evaluation
static std::unordered_map<Expr *, APInt> bigmemo; static u32 bigstamp = 0;
APInt evalBig(Expr *e) {
	if (e->w <= 64) return APInt(e->w, evalExpr(e));
	if (e->k == CONST) return *e->big;
	if (bigstamp != g_stamp) { bigmemo.clear(); bigstamp = g_stamp; }
	auto it = bigmemo.find(e); if (it != bigmemo.end()) return it->second;
	APInt r(e->w, 0);
	switch (e->k) {
	case CONCAT: r = (evalBig(e->a).zext(e->w) << e->b->w) | evalBig(e->b).zext(e->w); break;
	case EXTRACT: r = evalBig(e->a).extractBits(e->w, e->aux); break;
	case ZEXT: r = evalBig(e->a).zext(e->w); break;
	case SEXT: r = evalBig(e->a).sext(e->w); break;
	case ITE: r = evalExpr(e->a) ? evalBig(e->b) : evalBig(e->d); break;
	default: r = foldBinBig(e->k, evalBig(e->a), evalBig(e->b)); break;
	}
	bigmemo.emplace(e, r); return r;
}
u64 evalExpr(Expr *e) {
	if (e->k == CONST) return e->c;
	if (e->estamp == g_stamp) return e->eval;
	u64 r;
	switch (e->k) {
	case VAR: r = g_model[e->c]; break;
	case ITE: r = evalExpr(e->a) ? evalExpr(e->b) : evalExpr(e->d); break;
	case EXTRACT: if (e->a->w <= 64) r = (evalExpr(e->a) >> e->aux) & maskw(e->w); else r = evalBig(e->a).extractBitsAsZExtValue(e->w, e->aux); break;
	case CONCAT: r = (evalExpr(e->a) << e->b->w) | evalExpr(e->b); break;
	case ZEXT: r = evalExpr(e->a); break;
	case SEXT: r = (u64)sext64(evalExpr(e->a), e->a->w) & maskw(e->w); break;
	default:
		if (e->k >= FADD) r = foldFP(e->k, e->w, evalExpr(e->a), e->a->w, e->b ? evalExpr(e->b) : 0, e->aux);
		else if (e->a->w > 64) r = foldBinBig(e->k, evalBig(e->a), evalBig(e->b)).getZExtValue();
		else r = foldBin(e->k, evalExpr(e->a), evalExpr(e->b), e->a->w);
	}
	e->estamp = g_stamp; e->eval = r; return r;
}

// ---------------------------------------------------------------- z3
static Z3_ast ref(Z3_ast a) { Z3_inc_ref(g_ctx, a); return a; }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(g_ctx, b, Z3_mk_unsigned_int64(g_ctx, 1, Z3_mk_bv_sort(g_ctx, 1)), Z3_mk_unsigned_int64(g_ctx, 0, Z3_mk_bv_sort(g_ctx, 1))); }
static Z3_ast bv(Expr *e) { Z3_ast z = toZ3(e); return e->w == 1 ? b2bv(z) : z; } // width-1 terms are Bool
static Z3_ast tobool1(Z3_ast v) { return Z3_mk_eq(g_ctx, v, Z3_mk_unsigned_int64(g_ctx, 1, Z3_mk_bv_sort(g_ctx, 1))); }
static Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(g_ctx) : Z3_mk_fpa_sort_64(g_ctx); }
static Z3_ast fpv(Expr *e) { return Z3_mk_fpa_to_fp_bv(g_ctx, toZ3(e), fsort(e->w)); }
Z3_ast toZ3(Expr *e) {
	if (e->z) return e->z;
	Z3_ast r; Z3_context c = g_ctx;
	// avoid deep recursion: translate children first with an explicit stack when deep
	{
		std::vector<Expr *> st; st.push_back(e);
		while (!st.empty()) { Expr *x = st.back(); if (x->z) { st.pop_back(); continue; }
			bool ready = true;
			for (Expr *ch : {x->a, x->b, x->d}) if (ch && !ch->z) { st.push_back(ch); ready = false; }
			if (!ready) continue;
			if (x == e) break;
			toZ3(x); st.pop_back();
		}
		if (e->z) return e->z;
	}
	switch (e->k) {
	case CONST:
		if (e->w == 1) r = e->c ? Z3_mk_true(c) : Z3_mk_false(c);
		else if (e->w <= 64) r = Z3_mk_unsigned_int64(c, e->c, Z3_mk_bv_sort(c, e->w));
		else { llvm::SmallString<128> s; e->big->toString(s, 10, false); r = Z3_mk_numeral(c, std::string(s.str()).c_str(), Z3_mk_bv_sort(c, e->w)); }
		break;
	case VAR: { Z3_symbol s = Z3_mk_int_symbol(c, (int)e->c); r = Z3_mk_const(c, s, e->w == 1 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, e->w)); break; }
	case ITE: r = Z3_mk_ite(c, toZ3(e->a), toZ3(e->b), toZ3(e->d)); break;
	case CONCAT: r = Z3_mk_concat(c, bv(e->a), bv(e->b)); break;
	case EXTRACT: r = Z3_mk_extract(c, e->aux + e->w - 1, e->aux, bv(e->a)); if (e->w == 1) r = tobool1(r); break;
	case ZEXT: if (e->a->w == 1) r = Z3_mk_ite(c, toZ3(e->a), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, e->w)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, e->w))); else r = Z3_mk_zero_ext(c, e->w - e->a->w, toZ3(e->a)); break;
	case SEXT: r = Z3_mk_sign_ext(c, e->w - e->a->w, bv(e->a)); break;
	case EQ: r = e->a->w == 1 ? Z3_mk_iff(c, toZ3(e->a), toZ3(e->b)) : Z3_mk_eq(c, toZ3(e->a), toZ3(e->b)); break;
	case ULT: r = Z3_mk_bvult(c, bv(e->a), bv(e->b)); break;
	case ULE: r = Z3_mk_bvule(c, bv(e->a), bv(e->b)); break;
	case SLT: r = Z3_mk_bvslt(c, bv(e->a), bv(e->b)); break;
	case SLE: r = Z3_mk_bvsle(c, bv(e->a), bv(e->b)); break;
	case FADD: case FSUB: case FMUL: case FDIV: {
		Z3_ast rm = Z3_mk_fpa_rne(c), x = fpv(e->a), y = fpv(e->b);
		r = Z3_mk_fpa_to_ieee_bv(c, e->k == FADD ? Z3_mk_fpa_add(c, rm, x, y) : e->k == FSUB ? Z3_mk_fpa_sub(c, rm, x, y) : e->k == FMUL ? Z3_mk_fpa_mul(c, rm, x, y) : Z3_mk_fpa_div(c, rm, x, y)); break; }
	case FSQRT: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), fpv(e->a))); break;
	case FLT: r = Z3_mk_fpa_lt(c, fpv(e->a), fpv(e->b)); break;
	case FLE: r = Z3_mk_fpa_leq(c, fpv(e->a), fpv(e->b)); break;
	case FEQ: r = Z3_mk_fpa_eq(c, fpv(e->a), fpv(e->b)); break;
	case FCONV: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), fpv(e->a), fsort(e->w))); break;
	case SITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), bv(e->a), fsort(e->w))); break;
	case UITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), bv(e->a), fsort(e->w))); break;
	case FPTOSI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fpv(e->a), e->w); break;
	case FPTOUI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fpv(e->a), e->w); break;
	case FRND: { Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(c) : e->aux == 1 ? Z3_mk_fpa_rtp(c) : e->aux == 2 ? Z3_mk_fpa_rtz(c) : e->aux == 3 ? Z3_mk_fpa_rne(c) : Z3_mk_fpa_rna(c); r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, fpv(e->a))); break; }
	default: {
		Z3_ast x = toZ3(e->a), y = toZ3(e->b);
		if (e->w == 1) {
			Z3_ast args[2] = {x, y};
			switch (e->k) {
			case AND: r = Z3_mk_and(c, 2, args); break;
			case OR: r = Z3_mk_or(c, 2, args); break;
			case XOR: r = isOnes(e->b) ? Z3_mk_not(c, x) : Z3_mk_xor(c, x, y); break;
			default: {
				Z3_ast p = b2bv(x), q = b2bv(y);
				r = e->k == UDIV ? Z3_mk_bvudiv(c, p, q) : e->k == UREM ? Z3_mk_bvurem(c, p, q) : e->k == SDIV ? Z3_mk_bvsdiv(c, p, q) : e->k == SREM ? Z3_mk_bvsrem(c, p, q) : e->k == SHL ? Z3_mk_bvshl(c, p, q) : e->k == LSHR ? Z3_mk_bvlshr(c, p, q) : Z3_mk_bvashr(c, p, q);
				r = tobool1(r); } }
			break;
		}
		switch (e->k) {
		case ADD: r = Z3_mk_bvadd(c, x, y); break; case SUB: r = Z3_mk_bvsub(c, x, y); break; case MUL: r = Z3_mk_bvmul(c, x, y); break;
		case UDIV: r = Z3_mk_bvudiv(c, x, y); break; case SDIV: r = Z3_mk_bvsdiv(c, x, y); break;
		case UREM: r = Z3_mk_bvurem(c, x, y); break; case SREM: r = Z3_mk_bvsrem(c, x, y); break;
		case AND: r = Z3_mk_bvand(c, x, y); break; case OR: r = Z3_mk_bvor(c, x, y); break; case XOR: r = Z3_mk_bvxor(c, x, y); break;
		case SHL: r = Z3_mk_bvshl(c, x, y); break; case LSHR: r = Z3_mk_bvlshr(c, x, y); break; case ASHR: r = Z3_mk_bvashr(c, x, y); break;
		default: abort();
		} }
	}
	e->z = ref(r); return r;
}

std::string exprStr(Expr *e, int depth) {
	static const char *nm[] = {"C","V","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","eq","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","fsqrt","flt","fle","feq","fconv","sitofp","uitofp","fptosi","fptoui","frnd"};
	char buf[64];
	if (e->k == CONST) { if (e->w > 64) return "BIG"; snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)e->c, e->w); return buf; }
	if (e->k == VAR) return g_vars[e->c].name;
	if (depth == 0) return "...";
	std::string s = "("; s += nm[e->k]; snprintf(buf, sizeof buf, ":%u", e->w); s += buf; if (e->k == EXTRACT) { snprintf(buf, sizeof buf, "@%u", e->aux); s += buf; }
	for (Expr *x : {e->a, e->b, e->d}) if (x) s += " " + exprStr(x, depth - 1);
	return s + ")";
}
