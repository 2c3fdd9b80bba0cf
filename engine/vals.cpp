#include "exec_core.h"
#include <cmath>
#include <cfenv>
// A term built with divisions over one small variable (<= 6 bits) is replaced by an equal affine or piecewise-constant term.
static bool hasDiv(E e, int depth = 0) { if (!e || depth > 60) return false; if (e->op == Op::UDiv || e->op == Op::SDiv || e->op == Op::URem || e->op == Op::SRem) return true; return hasDiv(e->a, depth + 1) || hasDiv(e->b, depth + 1) || hasDiv(e->c, depth + 1); }
static E tabulate(E e) {
    static std::unordered_map<E, E> memo; if (e->sort != SBV || e->op == Op::Var || e->op == Op::Const || e->op == Op::ZExt || e->op == Op::SExt || !e->sup) return e; int var = -1; for (size_t w = 0; w < e->sup->size(); ++w) { uint64_t b = (*e->sup)[w]; if (!b) continue; if (var >= 0 || (b & (b - 1))) return e; var = (int)(w * 64 + __builtin_ctzll(b)); }
    if (var < 0) return e; E v = varExpr(var); if (v->sort != SBV || v->w > 6 || v->var->axioms.size()) return e; auto it = memo.find(e); if (it != memo.end()) return it->second;
    if (!hasDiv(e)) return memo[e] = e; uint64_t hi = std::min<uint64_t>(v->var->bound, maskw(v->w)); std::vector<uint64_t> t; for (uint64_t x = 0; x <= hi; ++x) { Model m; MVal mv; mv.bv = x; m.v[var] = mv; uint64_t r; if (!evalUnder(e, m, r, nullptr)) return memo[e] = e; t.push_back(r); }
    int runs = 1; bool aff = t.size() > 1; for (size_t i = 1; i < t.size(); ++i) { runs += t[i] != t[i - 1]; if (((t[i] - t[i - 1]) & maskw(e->w)) != ((t[1] - t[0]) & maskw(e->w))) aff = false; }
    if (runs == 1) return memo[e] = mkC(e->w, t[0]); E vx = e->w > v->w ? mkZExt(v, e->w) : e->w < v->w ? mkExtract(v, 0, e->w) : v;
    if (aff && e->w >= v->w) return memo[e] = mkBin(Op::Add, mkBin(Op::Mul, vx, mkC(e->w, (t[1] - t[0]) & maskw(e->w))), mkC(e->w, t[0]));
    if (runs > 8) return memo[e] = e; E r = mkC(e->w, t.back()); for (size_t i = t.size() - 1; i-- > 0;) if (t[i] != t[i + 1]) r = mkIte(mkBin(Op::Ule, v, mkC(v->w, i)), mkC(e->w, t[i]), r); return memo[e] = r;
}
Val Exec::fromE(E e) { e = tabulate(e); if (e->op == Op::Const) return Val::C(e->aux); if (curState && !curState->subst.empty()) { auto it = curState->subst.find(e); if (it != curState->subst.end()) return Val::C(it->second); } Val v; v.k = KE; v.e = e; return v; }
static Val rv(E e) { Val v; v.k = KE; v.e = e; return v; }
static Val D(double d) { return Val::C(dBits(d)); }
static Val Q(double d, const mpq_class& q) { if (!std::isfinite(d) || mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2) > 1500) return D(d); if (mpq_class(d) == q) return D(d); Val v; v.k = KQ; v.q = new KQv{d, mkR(q)}; return v; }
double Exec::cd(const Val& v) { return v.k == KQ ? v.q->d : bitsD(v.c); }
static mpq_class qOf(const Val& v) { return v.k == KQ ? *v.q->q->q : mpq_class(bitsD(v.c)); }
E Exec::toBV(State& s, const Val& v, int w) {
    switch (v.k) {
    case KC: return mkC(w, v.c);
    case KE: if (v.e->sort == SBV) { if (v.e->w == w) return v.e; if (v.e->w > w) return mkExtract(v.e, 0, w); return mkZExt(v.e, w); } if (v.e->sort == SFP && w == 64) return mkFOp(Op::FToBits, 64, SBV, v.e); fail("integer view of a symbolic real at " + where(s));
    case KQ: return mkC(w, dBits(v.q->d));
    case KX: fail("integer view of a symbolic double at " + where(s));
    default: fail("undefined value used at " + where(s));
    }
}
E Exec::toReal(State& s, const Val& v) {
    if (v.k == KQ) return v.q->q; if (v.k == KC) { double d = bitsD(v.c); if (!std::isfinite(d)) fail("non-finite constant in real arithmetic at " + where(s)); return mkR(mpq_class(d)); }
    if (v.k == KE && v.e->sort == SReal) return v.e;
    if (v.k == KX) { mpq_class q(1); q /= mpq_class((long)v.x->den); return mkRMul(mkR(q), mkRFromS(v.x->num)); }
    if (v.k == KU) fail("undefined double used at " + where(s));
    fail("integer bits used as real at " + where(s));
}
E Exec::toFP(State& s, const Val& v) {
    if (v.k == KC) return mkF(bitsD(v.c)); if (v.k == KQ) return mkF(v.q->d);
    if (v.k == KE) { if (v.e->sort == SFP) return v.e; if (v.e->sort == SBV && v.e->w == 64) return mkFOp(Op::FFromBits, 0, SFP, v.e); }
    if (v.k == KX) { if (v.x->den == 1) return mkFOp(Op::FFromS, 0, SFP, v.x->num); }
    fail("value not usable as IEEE double at " + where(s));
}
// ---- fixed-point rationals
static const int64_t FXMAX = (int64_t)1 << 61;
static bool ratOf(double d, mpq_class& q, mpq_class& err) {
    if (!std::isfinite(d)) return false; mpq_class ex(d);
    if (ex.get_den() <= (1 << 20) && abs(ex.get_num()) < FXMAX) { q = ex; err = 0; return true; }
    double p10 = 1; for (int k = 1; k <= 12; ++k) { p10 *= 10; double r = std::nearbyint(d * p10); if (std::fabs(r) > 1e15) break; mpq_class c((long)r, (long)p10); c.canonicalize(); if (r / p10 == d) { q = c; err = abs(c - ex); return true; } }
    return false;
}
FX* Exec::fxOf(const Val& v) {
    if (v.k == KX) return v.x; double d; mpq_class q, er;
    if (v.k == KC) { d = bitsD(v.c); if (!ratOf(d, q, er)) return nullptr; }
    else if (v.k == KQ) { d = v.q->d; q = *v.q->q->q; if (abs(q.get_num()) >= FXMAX || q.get_den() > (1L << 40)) { if (!ratOf(d, q, er)) return nullptr; } else er = abs(q - mpq_class(d)); }
    else return nullptr;
    FX* f = new FX; f->num = mkC(64, (uint64_t)q.get_num().get_si()); f->den = q.get_den().get_si(); f->err = er; f->cr = true; return f;
}
static mpq_class maxAbs(FX* f) { mpz_class a(std::to_string(f->num->smin)), b(std::to_string(f->num->smax)); mpz_class m = abs(a) > abs(b) ? mpz_class(abs(a)) : mpz_class(abs(b)); mpq_class q(m); q /= mpq_class((long)f->den); return q; }
static bool dyadicExact(FX* f) { return (f->den & (f->den - 1)) == 0 && maxAbs(f) * (long)f->den < mpq_class(mpz_class(1) << 53); }
static bool scaleTo(FX* f, int64_t L, E& out) { int64_t k = L / f->den; i128 hi = (i128)std::max(std::labs(f->num->smin), std::labs(f->num->smax)) * k; if (f->num->smin == INT64_MIN || hi >= FXMAX) return false; out = mkBin(Op::Mul, f->num, mkC(64, (uint64_t)k)); return true; }
static bool lcmDen(FX* a, FX* b, int64_t& L) { int64_t g = std::__gcd(a->den, b->den); i128 l = (i128)a->den / g * b->den; if (l > ((i128)1 << 45)) return false; L = (int64_t)l; return true; }
static Val fxv(FX* f) { if (f->num->op == Op::Const) { int64_t n = (int64_t)f->num->aux; mpq_class q((long)n); q /= mpq_class((long)f->den); return Q(q.get_d(), q); } Val v; v.k = KX; v.x = f; return v; }
static void addRound(FX* r) { r->cr = r->err == 0; if (r->err == 0 && dyadicExact(r)) return; mpq_class ulp = maxAbs(r) / mpq_class(mpz_class(1) << 52); r->err += ulp; }
static void reduce(FX* r) { // divide out common factors of constant structure (num = Mul(x,k))
    if (r->num->op == Op::SExt && r->num->a->op == Op::Mul && r->num->a->b->op == Op::Const) { int64_t k = sx(r->num->a->b->aux, r->num->a->w); int64_t g = std::__gcd(std::labs(k), r->den); if (g > 1) { E x = mkSExt(r->num->a->a, 64); r->num = mkBin(Op::Mul, x, mkC(64, (uint64_t)(k / g))); r->den /= g; } }
    else if (r->num->op == Op::Mul && r->num->b->op == Op::Const) { int64_t k = (int64_t)r->num->b->aux; int64_t g = std::__gcd(std::labs(k), r->den); if (g > 1) { r->num = mkBin(Op::Mul, r->num->a, mkC(64, (uint64_t)(k / g))); r->den /= g; } }
}
bool Exec::fxBin(State& s, int op, const Val& a, const Val& b, Val& out) {
    FX *x = fxOf(a), *y = fxOf(b); if (!x || !y) return false; FX* r = new FX;
    if (op == OpFAdd || op == OpFSub) {
        int64_t L; if (!lcmDen(x, y, L)) return false; E p, q; if (!scaleTo(x, L, p) || !scaleTo(y, L, q)) return false; r->num = mkBin(op == OpFAdd ? Op::Add : Op::Sub, p, q); r->den = L; r->err = x->err + y->err; addRound(r); reduce(r); out = fxv(r); return true;
    }
    if (op == OpFMul) {
        i128 m = (i128)std::max(std::labs(x->num->smin), std::labs(x->num->smax)) * std::max(std::labs(y->num->smin), std::labs(y->num->smax)); i128 d = (i128)x->den * y->den; if (x->num->smin == INT64_MIN || y->num->smin == INT64_MIN) return false;
        int64_t g1 = 1; if (m >= FXMAX || d > ((i128)1 << 45)) { // reduce constants against denominators
            FX xc = *x, yc = *y; auto red = [](FX& c, FX& o) { if (c.num->op == Op::Const) { int64_t k = (int64_t)c.num->aux, g = std::__gcd(std::labs(k), o.den); if (g > 1) { c.num = mkC(64, (uint64_t)(k / g)); o.den /= g; } } }; red(xc, yc); red(yc, xc); m = (i128)std::max(std::labs(xc.num->smin), std::labs(xc.num->smax)) * std::max(std::labs(yc.num->smin), std::labs(yc.num->smax)); d = (i128)xc.den * yc.den; if (m >= FXMAX || d > ((i128)1 << 45)) return false; *(x = new FX) = xc; *(y = new FX) = yc; }
        r->num = mkBin(Op::Mul, x->num, y->num); r->den = (int64_t)d; r->err = x->err * maxAbs(y) + y->err * maxAbs(x) + x->err * y->err; addRound(r); reduce(r); out = fxv(r); return true;
    }
    if (op == OpFDiv) {
        if (y->num->op != Op::Const) return false; int64_t k = (int64_t)y->num->aux; if (k == 0) return false; if (y->err != 0) { }
        FX inv; inv.num = mkC(64, (uint64_t)(k > 0 ? y->den : -y->den)); inv.den = std::labs(k); mpq_class yv((long)k); yv /= mpq_class((long)y->den); inv.err = y->err == 0 ? mpq_class(0) : mpq_class(y->err / (yv * yv) * 2);
        int64_t g = std::__gcd(std::labs((int64_t)inv.num->aux), inv.den); if (g > 1) { inv.num = mkC(64, (uint64_t)((int64_t)inv.num->aux / g)); inv.den /= g; }
        FX xc = *x; int64_t k2 = (int64_t)inv.num->aux; int64_t g2 = std::__gcd(std::labs(k2), xc.den); if (g2 > 1) { k2 /= g2; xc.den /= g2; inv.num = mkC(64, (uint64_t)k2); }
        i128 m = (i128)std::max(std::labs(xc.num->smin), std::labs(xc.num->smax)) * std::labs(k2), d = (i128)xc.den * inv.den; if (xc.num->smin == INT64_MIN || m >= FXMAX || d > ((i128)1 << 45)) return false;
        r->num = mkBin(Op::Mul, xc.num, inv.num); r->den = (int64_t)d; mpq_class iv((long)k2); iv /= mpq_class((long)inv.den); r->err = x->err * abs(iv) + inv.err * maxAbs(x); addRound(r); reduce(r); out = fxv(r); return true;
    }
    return false;
}
static bool exactOp(int op, double a, double b, double r) {
    if (!std::isfinite(r) || !std::isfinite(a) || !std::isfinite(b)) return true;
    switch (op) {
    case OpFAdd: { double bb = r - a; return (a - (r - bb)) + (b - bb) == 0; } case OpFSub: { double nb = -b, bb = r - a; return (a - (r - bb)) + (nb - bb) == 0; }
    case OpFMul: return (r == 0 && (a == 0 || b == 0)) || (std::fabs(r) > 1e-280 && std::fma(a, b, -r) == 0); case OpFDiv: return a == 0 || (std::fabs(a) > 1e-280 && std::fma(r, b, -a) == 0);
    }
    return true;
}
Val Exec::fpbin(State& s, int op, const Val& a, const Val& b) {
    if (a.k == KU || b.k == KU) return Val();
    if (isConcD(a) && isConcD(b)) {
        double x = cd(a), y = cd(b), r = 0; switch (op) { case OpFAdd: r = x + y; break; case OpFSub: r = x - y; break; case OpFMul: r = x * y; break; case OpFDiv: r = x / y; break; case OpFRem: return D(fmod(x, y)); }
        if (mode == 1) return D(r);
        if (a.k == KC && b.k == KC && exactOp(op, x, y, r)) return D(r);
        if (!std::isfinite(r)) return D(r);
        mpq_class p = qOf(a), q = qOf(b); if (op == OpFDiv && q == 0) return D(r);
        return Q(r, op == OpFAdd ? mpq_class(p + q) : op == OpFSub ? mpq_class(p - q) : op == OpFMul ? mpq_class(p * q) : mpq_class(p / q));
    }
    if (mode == 1) { if (op == OpFRem) fail("symbolic fmod"); return rv(mkFOp(op == OpFAdd ? Op::FAdd : op == OpFSub ? Op::FSub : op == OpFMul ? Op::FMul : Op::FDiv, 0, SFP, toFP(s, a), toFP(s, b))); }
    // non-finite constants
    for (int side = 0; side < 2; ++side) { const Val& c = side ? b : a; const Val& o = side ? a : b; if (c.k == KC && !std::isfinite(bitsD(c.c))) { double d = bitsD(c.c); if (std::isnan(d)) return c; if (op == OpFAdd) return c; if (op == OpFSub) return side ? D(-d) : c; if (op == OpFDiv && side) return D(0.0); E o_ = toReal(s, o); if (decide(s, mkRCmp(Op::REq, o_, mkR(0)))) return op == OpFMul ? D(NAN) : D(d); bool pos = decide(s, mkRCmp(Op::RLt, mkR(0), o_)); return D(pos ? d : -d); } }
    if (op == OpFDiv && b.k == KX && b.x->num->op != Op::Const && !s.noModel) { // a divisor computed from integers: split on its (few) values
        for (int i = 0; i < 4; ++i) { uint64_t v; if (!evalUnder(b.x->num, *s.model, v, nullptr) || s.noModel) break; int before = (int)forks; if (decide(s, mkEq(b.x->num, mkC(64, v)))) { FX* f = new FX(*b.x); f->num = mkC(64, v); return fpbin(s, op, a, fxv(f)); } if (before == (int)forks) break; }
    }
    bool ax = a.k == KX || isConcD(a), bx = b.k == KX || isConcD(b);
    if (ax && bx) { Val r; if (op == OpFDiv && b.k == KX) { } else if (op == OpFDiv && isConcD(b) && cd(b) == 0) { } else if (fxBin(s, op, a, b, r)) return r; }
    if (op == OpFRem) fail("symbolic fmod at " + where(s));
    if (getenv("DALSYM_FX") && (a.k == KX || b.k == KX)) fprintf(stderr, "fx->real op %d a=%s [%ld,%ld] b kind %d %s\n", op, a.k == KX ? show(a.x->num, 14).c_str() : "c", a.k == KX ? a.x->num->smin : 0, a.k == KX ? a.x->num->smax : 0, b.k, where(s).c_str());
    E x = toReal(s, a), y = toReal(s, b);
    switch (op) {
    case OpFAdd: return rv(mkRAdd(x, y)).e->isConst() ? Q(mkRAdd(x, y)->q->get_d(), *mkRAdd(x, y)->q) : rv(mkRAdd(x, y));
    case OpFSub: { E r = mkRSub(x, y); if (r->isConst()) return Q(r->q->get_d(), *r->q); return rv(r); }
    case OpFMul: { E r = mkRMul(x, y); if (r->isConst()) return Q(r->q->get_d(), *r->q); return rv(r); }
    case OpFDiv: {
        if (decide(s, mkRCmp(Op::REq, y, mkR(0)))) { if (decide(s, mkRCmp(Op::REq, x, mkR(0)))) return D(NAN); bool pos = decide(s, mkRCmp(Op::RLt, mkR(0), x)); return D(pos ? INFINITY : -INFINITY); }
        E r = mkRDiv(x, y); if (r->isConst()) return Q(r->q->get_d(), *r->q); return rv(r); }
    }
    fail("fpbin");
}
Val Exec::fpneg(State& s, const Val& a) {
    if (a.k == KU) return a; if (a.k == KC) return D(-bitsD(a.c)); if (a.k == KQ) return Q(-a.q->d, -*a.q->q->q);
    if (mode == 1) return rv(mkFOp(Op::FNeg, 0, SFP, toFP(s, a)));
    if (a.k == KX) { FX* f = new FX(*a.x); f->num = mkBin(Op::Sub, mkC(64, 0), f->num); return fxv(f); }
    return rv(mkRNeg(toReal(s, a)));
}
Val Exec::fpabs(State& s, const Val& a) {
    if (a.k == KU) return a; if (a.k == KC) return D(std::fabs(bitsD(a.c))); if (a.k == KQ) return Q(std::fabs(a.q->d), abs(*a.q->q->q));
    if (mode == 1) return rv(mkFOp(Op::FAbs, 0, SFP, toFP(s, a)));
    if (a.k == KX) { FX* f = new FX(*a.x); E neg = mkBin(Op::Slt, f->num, mkC(64, 0)); f->num = mkIte(neg, mkBin(Op::Sub, mkC(64, 0), f->num), f->num); return fxv(f); }
    E x = toReal(s, a); E neg = mkRCmp(Op::RLt, x, mkR(0)); return decide(s, neg) ? rv(mkRNeg(x)) : a;
}
// FCmp predicates: 0 false,1 oeq,2 ogt,3 oge,4 olt,5 ole,6 one,7 ord,8 uno,9 ueq,10 ugt,11 uge,12 ult,13 ule,14 une,15 true
Val Exec::fpcmp(State& s, int p, const Val& a, const Val& b) {
    if (a.k == KU || b.k == KU) return Val();
    if (p == 0) return Val::C(0); if (p == 15) return Val::C(1);
    if (isConcD(a) && isConcD(b)) { double x = cd(a), y = cd(b); bool un = std::isnan(x) || std::isnan(y); int q = p & 7; bool r; switch (q) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y && !un; break; case 7: r = !un; break; default: r = false; } if (p >= 8) r = r || un; if (p == 8) r = un; return Val::C(r); }
    if (mode == 1) {
        E x = toFP(s, a), y = toFP(s, b); E un = mkOr1(mkFOp(Op::FIsNan, 1, SBV, x), mkFOp(Op::FIsNan, 1, SBV, y)); int q = p & 7; E r;
        switch (q) { case 1: r = mkFOp(Op::FEq, 1, SBV, x, y); break; case 2: r = mkFOp(Op::FLt, 1, SBV, y, x); break; case 3: r = mkFOp(Op::FLe, 1, SBV, y, x); break; case 4: r = mkFOp(Op::FLt, 1, SBV, x, y); break; case 5: r = mkFOp(Op::FLe, 1, SBV, x, y); break; case 6: r = mkAnd1(mkNot(un), mkNot(mkFOp(Op::FEq, 1, SBV, x, y))); break; case 7: r = mkNot(un); break; default: r = mkFalse(); }
        if (p >= 8) r = p == 8 ? un : mkOr1(r, un); return fromE(r);
    }
    for (int side = 0; side < 2; ++side) { const Val& c = side ? b : a; if (c.k == KC && !std::isfinite(bitsD(c.c))) { double d = bitsD(c.c); if (std::isnan(d)) return Val::C(p >= 8); double x = side ? 0 : d, y = side ? d : 0; int q = p & 7; bool r = q == 1 ? false : q == 2 || q == 3 ? x > y : q == 4 || q == 5 ? x < y : q == 6 ? true : q == 7; return Val::C(p == 8 ? 0 : r); } }
    int q = p & 7; if (p == 8) return Val::C(0); if (q == 7) return Val::C(1); if (p == 14) q = 6; 
    bool ax = a.k == KX || isConcD(a), bx = b.k == KX || isConcD(b);
    if (ax && bx) {
        FX *x = fxOf(a), *y = fxOf(b); int64_t L; E m, n;
        if (x && y && lcmDen(x, y, L) && scaleTo(x, L, m) && scaleTo(y, L, n)) {
            E r; auto sl = [&](E u, E v) { return mkBin(Op::Slt, u, v); }; auto le = [&](E u, E v) { return mkBin(Op::Sle, u, v); };
            switch (q) { case 1: r = mkEq(m, n); break; case 2: r = sl(n, m); break; case 3: r = le(n, m); break; case 4: r = sl(m, n); break; case 5: r = le(m, n); break; case 6: r = mkNot(mkEq(m, n)); break; default: r = mkTrue(); }
            mpq_class er = x->err + y->err; if (er == 0) return fromE(r);
            // ambiguity zone |m-n| <= er*L
            mpq_class z = er * (long)L; mpz_class zi = z.get_num() / z.get_den(); if (!zi.fits_slong_p() || zi > FXMAX) fail("fx error bound too large"); E df = mkBin(Op::Sub, m, n); E amb = mkAnd1(le(mkC(64, (uint64_t)-zi.get_si()), df), le(df, mkC(64, (uint64_t)zi.get_si()))); if ((x->cr || x->err == 0) && (y->cr || y->err == 0)) amb = mkAnd1(amb, mkNot(mkEq(m, n)));
            ModelP mm; Res rr; if (!feasible(s, amb, mm, rr, tmoBranch) && rr == Res::Unsat) return fromE(r);
            static int cnt = 0; E fb = mkVar(1, "fxamb" + std::to_string(amb->id) + "_" + std::to_string(r->id)); (void)cnt; return fromE(mkIte(amb, fb, r));
        }
    }
    E x = toReal(s, a), y = toReal(s, b); E r;
    switch (q) { case 1: r = mkRCmp(Op::REq, x, y); break; case 2: r = mkRCmp(Op::RLt, y, x); break; case 3: r = mkRCmp(Op::RLe, y, x); break; case 4: r = mkRCmp(Op::RLt, x, y); break; case 5: r = mkRCmp(Op::RLe, x, y); break; case 6: r = mkNot(mkRCmp(Op::REq, x, y)); break; default: r = mkTrue(); }
    return fromE(r);
}
Val Exec::intToFp(State& s, const Val& a, int w, bool sgn) {
    if (a.k == KU) return a; if (a.k == KC) return D(sgn ? (double)sx(a.c, w) : (double)(a.c & maskw(w)));
    E e = toBV(s, a, w); if (mode == 1) return rv(mkFOp(sgn ? Op::FFromS : Op::FFromU, 0, SFP, e));
    E n = sgn ? mkSExt(e, 64) : (w < 64 ? mkZExt(e, 64) : e); if (!sgn && w == 64 && n->smin < 0) fail("uitofp of large symbolic"); FX* f = new FX; f->num = n; f->den = 1; f->err = 0; addRound(f); return fxv(f);
}
static E floorDiv(E n, int64_t d) { if (d == 1) return n; E dd = mkC(64, (uint64_t)d); if (n->smin >= 0) return mkBin(Op::UDiv, n, dd); E t = mkBin(Op::SDiv, n, dd); E r = mkBin(Op::SRem, n, dd); return mkIte(mkBin(Op::Slt, r, mkC(64, 0)), mkBin(Op::Add, t, mkC(64, (uint64_t)-1)), t); }
Val Exec::fpRound(State& s, const Val& a, int how) { // 0 floor 1 ceil 2 trunc 3 nearest-even 4 round-half-away
    if (a.k == KU) return a; if (isConcD(a)) { double d = cd(a); return D(how == 0 ? std::floor(d) : how == 1 ? std::ceil(d) : how == 2 ? std::trunc(d) : how == 3 ? std::nearbyint(d) : std::round(d)); }
    if (mode == 1) { if (how == 4) fail("ieee round"); return rv(mkFOp(Op::FRound, 0, SFP, toFP(s, a), nullptr, how)); }
    if (a.k != KX) {
        if (how > 2) fail("round of symbolic real"); E x = toReal(s, a); if (how == 1) return fpneg(s, fpRound(s, fpneg(s, a), 0)); if (how == 2 && decide(s, mkRCmp(Op::RLt, x, mkR(0)))) return fpneg(s, fpRound(s, fpneg(s, a), 0));
        VarInfo* vi; E k = mkVar(24, "floor" + std::to_string(x->id), &vi); E rk = mkRFromS(mkSExt(k, 64)); if (vi->axioms.empty()) { vi->axioms.push_back(mkRCmp(Op::RLe, rk, x)); vi->axioms.push_back(mkRCmp(Op::RLt, x, mkRAdd(rk, mkR(1)))); }
        ModelP m; Res r; if (!feasible(s, mkTrue(), m, r, tmoBranch)) {} FX* f = new FX; f->num = mkSExt(k, 64); f->den = 1; f->err = 0; // make sure the model covers the new variable
        { ModelP mm; Res r2 = solve(s.path, mkBin(Op::Sle, f->num, mkC(64, 1 << 22)), s.model, mm, tmoBranch); if (r2 == Res::Sat) s.model = mm; else if (r2 == Res::Unsat) fail("floor of large real"); }
        return fxv(f);
    }
    FX* x = a.x; FX* r = new FX; r->den = 1; r->err = 0; if (x->den == 1 && x->err == 0) return a;
    E num = x->num; int64_t den = x->den; mpq_class er = x->err;
    if (how == 3 || how == 4) { if (den > FXMAX / 4) fail("round fx"); num = mkBin(Op::Add, mkBin(Op::Mul, num, mkC(64, 2)), mkC(64, (uint64_t)den)); den *= 2; } // floor(x+1/2): ties handled as ambiguity below
    E q = how == 1 ? mkBin(Op::Sub, mkC(64, 0), floorDiv(mkBin(Op::Sub, mkC(64, 0), num), den)) : how == 2 ? mkBin(Op::SDiv, num, mkC(64, (uint64_t)den)) : floorDiv(num, den);
    mpq_class z = er * (long)den; mpz_class zi = z.get_num() / z.get_den(); // integers within the error bound
    if (er > 0 || how >= 3) { // is an integer boundary reachable within the error?
        if (zi * 2 >= den) fail("fx error exceeds resolution"); int64_t zz = zi.get_si(); E rem = mkBin(Op::Sub, num, mkBin(Op::Mul, floorDiv(num, den), mkC(64, (uint64_t)den)));
        E lowAmb = mkBin(Op::Sle, rem, mkC(64, (uint64_t)zz)), hiAmb = mkBin(Op::Sle, mkC(64, (uint64_t)(den - zz)), rem); if (zz == 0) hiAmb = mkFalse();
        if (x->cr && how < 3) lowAmb = mkAnd1(lowAmb, mkNot(mkEq(rem, mkC(64, 0)))); if (er == 0 && how == 4) { lowAmb = mkFalse(); } E amb = mkOr1(lowAmb, hiAmb); ModelP mm; Res rr; if (feasible(s, amb, mm, rr, tmoBranch) || rr == Res::Unknown) {
            // true value may fall on either side of the boundary: nondeterministic choice
            E fb = mkVar(1, "fxrnd" + std::to_string(num->id) + "_" + std::to_string(den) + "_" + std::to_string(how)); E fl = floorDiv(num, den); E below, above; // candidates
            if (how == 2 || how == 0 || how >= 3) { E c1 = mkIte(lowAmb, mkBin(Op::Sub, fl, mkC(64, 1)), fl), c2 = mkIte(lowAmb, fl, mkBin(Op::Add, fl, mkC(64, 1))); if (how == 2) { if (num->smin < 0) fail("fx trunc of negative ambiguous"); c1 = mkIte(mkBin(Op::Slt, c1, mkC(64, 0)), mkC(64, 0), c1); } q = mkIte(amb, mkIte(fb, c1, c2), q); } else fail("fx ceil ambiguous");
        }
    }
    if (getenv("DALSYM_FX")) fprintf(stderr, "fpRound how=%d num=%s den=%ld err=%g cr=%d -> %s\n", how, show(num).c_str(), (long)den, er.get_d(), x->cr, show(q, 12).c_str());
    r->num = q; return fxv(r);
}
Val Exec::fpToInt(State& s, const Val& a, int w, bool sgn) {
    if (a.k == KU) return a; if (isConcD(a)) { double d = cd(a); if (!(d > -9.3e18 && d < 1.85e19)) return Val::C(0); return Val::C((sgn || d < 0 ? (uint64_t)(int64_t)d : (uint64_t)d) & maskw(w)); }
    if (mode == 1) return fromE(mkFOp(Op::FToS, w, SBV, toFP(s, a)));
    Val r = fpRound(s, a, 2); if (isConcD(r)) return fpToInt(s, r, w, sgn); if (r.k != KX) fail("fptosi of symbolic real"); E n = r.x->num;
    if (n->smin != INT64_MIN && n->smax - n->smin > 0 && n->smax - n->smin <= 4 && !s.noModel && !s.subst.count(n)) { uint64_t v; ModelP m; if (evalUnder(n, *s.model, v, nullptr) && solve(s.path, mkNot(mkEq(n, mkC(64, v))), s.model, m, 2000) == Res::Unsat) { s.subst[n] = v; return Val::C(v & maskw(w)); } }
    return fromE(w == 64 ? n : mkExtract(n, 0, w));
}
Val Exec::iteVal(State& s, E c, const Val& a, const Val& b, TypeD* t, bool& ok) {
    ok = true; if (c->op == Op::Const) return c->aux ? a : b;
    if (a.k == KU) return b; if (b.k == KU) return a;
    if (a.k == b.k && a.c == b.c) return a;
    if (a.k == KA || b.k == KA) { if (a.k != b.k) { ok = false; return a; } Agg* g = new Agg; for (size_t i = 0; i < a.a->v.size() && ok; ++i) g->v.push_back(iteVal(s, c, a.a->v[i], b.a->v[i], i < t->el.size() ? t->el[i].second : t, ok)); Val r; r.k = KA; r.a = g; return r; }
    if (t->kind == TInt) {
        bool ra = a.k == KX || a.k == KQ || (a.k == KE && a.e->sort != SBV), rb = b.k == KX || b.k == KQ || (b.k == KE && b.e->sort != SBV); if (ra || rb) { ok = false; return a; }
        return fromE(mkIte(c, toBV(s, a, t->bits), toBV(s, b, t->bits)));
    }
    if (t->kind == TDouble) {
        if (mode == 1) return rv(mkIte(c, toFP(s, a), toFP(s, b)));
        bool ax = a.k == KX || isConcD(a), bx = b.k == KX || isConcD(b);
        if (ax && bx) { FX *x = fxOf(a), *y = fxOf(b); int64_t L; E p, q; if (x && y && lcmDen(x, y, L) && scaleTo(x, L, p) && scaleTo(y, L, q)) { FX* r = new FX; r->num = mkIte(c, p, q); r->den = L; r->err = std::max(x->err, y->err); r->cr = (x->cr || x->err == 0) && (y->cr || y->err == 0); return fxv(r); } }
        for (const Val* v : {&a, &b}) if (v->k == KC && !std::isfinite(bitsD(v->c))) { ok = false; return a; }
        ok = false; return a; // reals: fork instead of building ite terms (keeps normal forms polynomial)
    }
    ok = false; return a;
}
// ---- integer ops
Val Exec::binop(State& s, const Inst& I, int op, const Val& a, const Val& b, int w) {
    if (a.k == KC && b.k == KC) {
        uint64_t x = a.c, y = b.c, m = maskw(w); int64_t sx_ = sx(x, w), sy = sx(y, w); uint64_t r = 0;
        switch (op) {
        case OpAdd: r = x + y; break; case OpSub: r = x - y; break; case OpMul: r = x * y; break;
        case OpUDiv: case OpURem: case OpSDiv: case OpSRem:
            if ((y & m) == 0) violation(s, "arith", "integer division by zero at " + where(s), nullptr);
            if (op == OpUDiv) r = x / y; else if (op == OpURem) r = x % y; else if (sy == -1) { if (sx_ == sx(1ull << (w - 1), w)) violation(s, "arith", "integer division overflow at " + where(s), nullptr); r = op == OpSDiv ? 0 - x : 0; } else r = op == OpSDiv ? sx_ / sy : sx_ % sy; break;
        case OpShl: r = y >= (uint64_t)w ? 0 : x << y; break; case OpLShr: r = y >= (uint64_t)w ? 0 : x >> y; break; case OpAShr: r = (uint64_t)(sx_ >> (y >= (uint64_t)w ? w - 1 : (int)y)); break;
        case OpAnd: r = x & y; break; case OpOr: r = x | y; break; case OpXor: r = x ^ y; break; default: fail("binop");
        }
        return Val::C(r & m);
    }
    if (a.k == KU || b.k == KU) { // tolerate masks/multiplications by known absorbing values
        const Val& o = a.k == KU ? b : a; if (o.k == KC && o.c == 0 && (op == OpAnd || op == OpMul)) return o; if (w == 64 && o.k == KC && (op == OpAnd || op == OpOr)) return op == OpOr ? o : Val::C(0); /* bit-vector words (vector<bool>): undefined bits read as 0 */ return Val(); }
    E x = toBV(s, a, w), y = toBV(s, b, w); Op o;
    switch (op) {
    case OpAdd: o = Op::Add; break; case OpSub: o = Op::Sub; break; case OpMul: o = Op::Mul; break; case OpUDiv: o = Op::UDiv; break; case OpSDiv: o = Op::SDiv; break; case OpURem: o = Op::URem; break; case OpSRem: o = Op::SRem; break; case OpShl: o = Op::Shl; break; case OpLShr: o = Op::LShr; break; case OpAShr: o = Op::AShr; break; case OpAnd: o = Op::And; break; case OpOr: o = Op::Or; break; case OpXor: o = Op::Xor; break; default: fail("binop sym");
    }
    if (o == Op::UDiv || o == Op::SDiv || o == Op::URem || o == Op::SRem) { if (y->umin == 0 && decide(s, mkEq(y, mkC(w, 0)))) violation(s, "arith", "integer division by zero at " + where(s), nullptr); }
    return fromE(mkBin(o, x, y));
}
// ICmp predicates: 32 eq 33 ne 34 ugt 35 uge 36 ult 37 ule 38 sgt 39 sge 40 slt 41 sle
Val Exec::icmp(State& s, int p, const Val& a, const Val& b, int w) {
    if (a.k == KC && b.k == KC) { uint64_t m = maskw(w), x = a.c & m, y = b.c & m; int64_t sa = sx(x, w), sb = sx(y, w); bool r = false; switch (p) { case 32: r = x == y; break; case 33: r = x != y; break; case 34: r = x > y; break; case 35: r = x >= y; break; case 36: r = x < y; break; case 37: r = x <= y; break; case 38: r = sa > sb; break; case 39: r = sa >= sb; break; case 40: r = sa < sb; break; case 41: r = sa <= sb; break; } return Val::C(r); }
    if (a.k == KU || b.k == KU) return Val();
    E x = toBV(s, a, w), y = toBV(s, b, w);
    switch (p) { case 32: return fromE(mkEq(x, y)); case 33: return fromE(mkNot(mkEq(x, y))); case 34: return fromE(mkBin(Op::Ult, y, x)); case 35: return fromE(mkBin(Op::Ule, y, x)); case 36: return fromE(mkBin(Op::Ult, x, y)); case 37: return fromE(mkBin(Op::Ule, x, y)); case 38: return fromE(mkBin(Op::Slt, y, x)); case 39: return fromE(mkBin(Op::Sle, y, x)); case 40: return fromE(mkBin(Op::Slt, x, y)); case 41: return fromE(mkBin(Op::Sle, x, y)); }
    fail("icmp");
}
// ---- transcendental functions as uninterpreted values with axioms
static std::map<std::string, std::vector<E>> ufVars; static std::map<std::string, E> ufByKey;
E Exec::sharedUf(UfKind k, const std::string& nm, E arg, E arg2) {
    std::string key; int sg = 1; std::string kk = nm + "|"; if (nfKey(arg, key, sg)) kk += (sg < 0 ? "-" : "+") + key; else kk += "#" + std::to_string(arg->id); if (arg2) { std::string k2; int s2; if (nfKey(arg2, k2, s2)) kk += "|" + std::string(s2 < 0 ? "-" : "+") + k2; else kk += "|#" + std::to_string(arg2->id); }
    auto it = ufByKey.find(kk); if (it != ufByKey.end()) return it->second;
    VarInfo* vi; E v = mkRVar(nm + "!" + std::to_string(ufByKey.size()), &vi); vi->uf = k; vi->ufArg = arg; vi->ufArg2 = arg2; vi->ufName = nm; E z = mkR(0);
    auto ax = [&](E e) { if (e->op != Op::Const) vi->axioms.push_back(e); };
    auto& prev = ufVars[nm];
    switch (k) {
    case UfSqrt: ax(mkRCmp(Op::RLe, z, v)); ax(mkRCmp(Op::REq, mkRMul(v, v), arg)); break;
    case UfExp: ax(mkRCmp(Op::RLt, z, v)); ax(mkRCmp(Op::RLe, mkRAdd(arg, mkR(1)), v)); ax(mkOr1(mkRCmp(Op::RLe, z, arg), mkRCmp(Op::RLt, v, mkR(1)))); break;
    case UfLog: ax(mkRCmp(Op::RLe, v, mkRSub(arg, mkR(1)))); ax(mkEq(mkRCmp(Op::RLt, z, v), mkRCmp(Op::RLt, mkR(1), arg))); ax(mkEq(mkRCmp(Op::REq, z, v), mkRCmp(Op::REq, mkR(1), arg))); break;
    case UfErfc: ax(mkRCmp(Op::RLt, z, v)); ax(mkRCmp(Op::RLt, v, mkR(2))); ax(mkEq(mkRCmp(Op::RLt, z, arg), mkRCmp(Op::RLt, v, mkR(1)))); ax(mkEq(mkRCmp(Op::REq, z, arg), mkRCmp(Op::REq, v, mkR(1)))); break;
    case UfSin: case UfCos: ax(mkRCmp(Op::RLe, mkR(-1), v)); ax(mkRCmp(Op::RLe, v, mkR(1))); break;
    default: break;
    }
    if (monotone && (k == UfExp || k == UfLog || k == UfErfc || k == UfSqrt) && prev.size() < 10) for (E p : prev) { E pa = p->var->ufArg; if (k == UfErfc) { ax(mkEq(mkRCmp(Op::RLt, pa, arg), mkRCmp(Op::RLt, v, p))); ax(mkEq(mkRCmp(Op::RLt, arg, pa), mkRCmp(Op::RLt, p, v))); } else { ax(mkEq(mkRCmp(Op::RLt, pa, arg), mkRCmp(Op::RLt, p, v))); ax(mkEq(mkRCmp(Op::RLt, arg, pa), mkRCmp(Op::RLt, v, p))); } }
    // algebraic links: exp(a)*exp(b)=1 when a=-b; erfc(a)+erfc(b)=2
    for (E p : prev) { if (k == UfExp && nfIsZero(mkRAdd(p->var->ufArg, arg)) == 1) ax(mkRCmp(Op::REq, mkRMul(p, v), mkR(1))); if (k == UfErfc && nfIsZero(mkRAdd(p->var->ufArg, arg)) == 1) ax(mkRCmp(Op::REq, mkRAdd(p, v), mkR(2))); }
    prev.push_back(v); ufByKey[kk] = v; return v;
}
Val Exec::fpUf(State& s, UfKind k, const std::string& nm, const Val& a) {
    if (a.k == KU) return a; E x = toReal(s, a); E z = mkR(0);
    mpq_class qc; if (nfConst(x, qc)) { double d = qc.get_d(); double r = k == UfSqrt ? std::sqrt(d) : k == UfExp ? std::exp(d) : k == UfLog ? std::log(d) : k == UfErfc ? std::erfc(d) : k == UfSin ? std::sin(d) : std::cos(d); if (k != UfOther) return D(r); }
    if (k == UfSqrt) { if (decide(s, mkRCmp(Op::RLt, x, z))) return D(NAN); mpq_class c; }
    if (k == UfLog) { if (decide(s, mkRCmp(Op::RLe, x, z))) { if (decide(s, mkRCmp(Op::REq, x, z))) return D(-INFINITY); return D(NAN); } if (x->var && x->var->uf == UfExp) return rv(x->var->ufArg); }
    if (k == UfExp && x->var && x->var->uf == UfLog) return rv(x->var->ufArg);
    if (k == UfExp && ufVars[nm].size() < 24 && !ufVars["log"].empty()) { // exp(a + log y) = exp(a) * y for logarithms taken on this path
        std::string key; int sg; std::vector<E> logs; std::set<E> seen; std::vector<E> st{x}; while (!st.empty() && seen.size() < 300) { E e = st.back(); st.pop_back(); if (!e || !seen.insert(e).second) continue; if (e->var) { if (e->var->uf == UfLog) logs.push_back(e); continue; } st.push_back(e->a); st.push_back(e->b); st.push_back(e->c); }
        if (!logs.empty() && logs.size() < 6 && nfKey(x, key, sg)) { for (E l : logs) { if (nfTiny(mkRSub(x, l)) == 1) return rv(l->var->ufArg); if (nfTiny(mkRAdd(x, l)) == 1) return rv(mkRDiv(mkR(1), l->var->ufArg)); } for (E p : ufVars[nm]) if (nfTiny(mkRSub(x, p->var->ufArg)) == 1) return rv(p);
            for (E p : ufVars[nm]) for (E l : logs) { if (nfTiny(mkRSub(mkRSub(x, p->var->ufArg), l)) == 1) return rv(mkRMul(p, l->var->ufArg)); if (nfTiny(mkRAdd(mkRSub(x, p->var->ufArg), l)) == 1) return rv(mkRDiv(p, l->var->ufArg)); } } }
    return rv(sharedUf(k, nm, x, nullptr));
}
