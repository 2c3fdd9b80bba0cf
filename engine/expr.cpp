#include "expr.h"
#include <cmath>
#include <unordered_set>
namespace {
struct Key { Op op; uint8_t w; uint64_t aux; E a, b, c; bool operator==(const Key& o) const { return op == o.op && w == o.w && aux == o.aux && a == o.a && b == o.b && c == o.c; } };
struct KeyH { size_t operator()(const Key& k) const { uint64_t h = (uint64_t)k.op * 0x9E3779B97F4A7C15ull + k.w; auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }; mix(k.aux); mix(k.a ? k.a->id + 1 : 0); mix(k.b ? k.b->id + 1 : 0); mix(k.c ? k.c->id + 1 : 0); return h; } };
std::unordered_map<Key, E, KeyH> table;
std::map<mpq_class, E> rconsts;
std::vector<VarInfo*> vars; std::vector<E> varExprs; std::unordered_map<std::string, E> varByName;
std::set<Bits> supSets; const Bits* emptySup;
uint32_t nextId = 0;
struct BitsHash {};
std::map<std::pair<const Bits*, const Bits*>, const Bits*> unionMemo;
const Bits* uni(const Bits* x, const Bits* y) {
    if (x == y || y == emptySup) return x; if (x == emptySup) return y; if (y < x) std::swap(x, y);
    auto it = unionMemo.find({x, y}); if (it != unionMemo.end()) return it->second;
    Bits r(std::max(x->size(), y->size()), 0); for (size_t i = 0; i < r.size(); ++i) r[i] = (i < x->size() ? (*x)[i] : 0) | (i < y->size() ? (*y)[i] : 0);
    const Bits* p = &*supSets.insert(r).first; unionMemo[{x, y}] = p; return p;
}
bool isBoolOp(Op o) { return o == Op::Eq || o == Op::Ult || o == Op::Ule || o == Op::Slt || o == Op::Sle; }
void ranges(Expr* e) {
    int w = e->w; uint64_t m = maskw(w); int64_t sm = w >= 64 ? INT64_MAX : (int64_t)(m >> 1), sn = -sm - 1;
    e->umin = 0; e->umax = m; e->smin = sn; e->smax = sm;
    auto setS = [&](i128 lo, i128 hi) { if (lo >= sn && hi <= sm) { e->smin = (int64_t)lo; e->smax = (int64_t)hi; } };
    auto setU = [&](i128 lo, i128 hi) { if (lo >= 0 && hi <= (i128)m) { e->umin = (uint64_t)lo; e->umax = (uint64_t)hi; } };
    E a = e->a, b = e->b;
    switch (e->op) {
    case Op::Const: e->umin = e->umax = e->aux; e->smin = e->smax = sx(e->aux, w); return;
    case Op::Add: setS((i128)a->smin + b->smin, (i128)a->smax + b->smax); setU((i128)a->umin + b->umin, (i128)a->umax + b->umax);
        break;
    case Op::Sub: setS((i128)a->smin - b->smax, (i128)a->smax - b->smin); setU((i128)a->umin - (i128)b->umax, (i128)a->umax - (i128)b->umin); break;
    case Op::Mul: {
        i128 p[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax}; i128 lo = p[0], hi = p[0]; for (auto x : p) { if (x < lo) lo = x; if (x > hi) hi = x; } setS(lo, hi);
        if (a->umax <= UINT32_MAX || b->umax <= UINT32_MAX) { unsigned __int128 h = (unsigned __int128)a->umax * b->umax; if (h <= m) { e->umin = a->umin * b->umin; e->umax = (uint64_t)h; } } break; }
    case Op::UDiv: if (b->umin > 0) { e->umin = a->umin / b->umax; e->umax = a->umax / b->umin; } break;
    case Op::URem: if (b->umin > 0) { e->umax = std::min(a->umax, b->umax - 1); if (a->umax < b->umin) e->umin = a->umin; } else e->umax = std::max(a->umax, b->umax); break;
    case Op::SDiv: if (b->smin > 0 || b->smax < 0) { i128 p[4] = {(i128)a->smin / b->smin, (i128)a->smin / b->smax, (i128)a->smax / b->smin, (i128)a->smax / b->smax}; i128 lo = p[0], hi = p[0]; for (auto x : p) { if (x < lo) lo = x; if (x > hi) hi = x; } if (a->smin <= 0 && a->smax >= 0) { if (lo > 0) lo = 0; if (hi < 0) hi = 0; } setS(lo, hi); } break;
    case Op::SRem: if (b->smin > 0) { i128 mx = (i128)b->smax - 1; setS(a->smin >= 0 ? (i128)0 : std::max((i128)a->smin, -mx), a->smax <= 0 ? (i128)0 : std::min((i128)a->smax, mx)); } break;
    case Op::And: e->umax = std::min(a->umax, b->umax); break;
    case Op::Or: { uint64_t x = a->umax | b->umax; int k = x ? 64 - __builtin_clzll(x) : 0; e->umax = maskw(k) & m; e->umin = std::max(a->umin, b->umin); break; }
    case Op::Xor: { uint64_t x = a->umax | b->umax; int k = x ? 64 - __builtin_clzll(x) : 0; e->umax = (k ? maskw(k) : 0) & m; break; }
    case Op::Shl: if (b->op == Op::Const && b->aux < (uint64_t)w) { if (a->umax <= (m >> b->aux)) { e->umin = a->umin << b->aux; e->umax = a->umax << b->aux; } i128 f = (i128)1 << b->aux; setS((i128)a->smin * f, (i128)a->smax * f); } break;
    case Op::LShr: if (b->op == Op::Const && b->aux < (uint64_t)w) { e->umin = a->umin >> b->aux; e->umax = a->umax >> b->aux; } else e->umax = a->umax; break;
    case Op::AShr: if (b->op == Op::Const && b->aux < (uint64_t)w) setS(a->smin >> b->aux, a->smax >> b->aux); break;
    case Op::ZExt: e->umin = a->umin; e->umax = a->umax; break;
    case Op::SExt: setS(a->smin, a->smax); break;
    case Op::Concat: setU(((i128)a->umin << b->w) + b->umin, ((i128)a->umax << b->w) + b->umax); break;
    case Op::Extract: if (e->aux == 0) { if (a->umax <= m) { e->umin = a->umin; e->umax = a->umax; } if (a->smin >= sn && a->smax <= sm) { e->smin = a->smin; e->smax = a->smax; } } else { if ((a->umax >> e->aux) <= m) { e->umin = a->umin >> e->aux; e->umax = a->umax >> e->aux; } } break;
    case Op::Ite: e->umin = std::min(b->umin, e->c->umin); e->umax = std::max(b->umax, e->c->umax); e->smin = std::min(b->smin, e->c->smin); e->smax = std::max(b->smax, e->c->smax); break;
    default: break;
    }
    // cross-derive
    if (e->umax <= (uint64_t)sm) { if ((int64_t)e->umin > e->smin) e->smin = (int64_t)e->umin; if ((int64_t)e->umax < e->smax) e->smax = (int64_t)e->umax; }
    else if (e->umin > (uint64_t)sm) { int64_t l = sx(e->umin, w), h = sx(e->umax, w); if (l > e->smin) e->smin = l; if (h < e->smax) e->smax = h; }
    if (e->smin >= 0) { if ((uint64_t)e->smin > e->umin) e->umin = (uint64_t)e->smin; if ((uint64_t)e->smax < e->umax) e->umax = (uint64_t)e->smax; }
    else if (e->smax < 0) { uint64_t l = (uint64_t)e->smin & m, h = (uint64_t)e->smax & m; if (l > e->umin) e->umin = l; if (h < e->umax) e->umax = h; }
}
Expr* fresh(Op op, Sort s, int w, uint64_t aux, E a, E b, E c) {
    Expr* e = new Expr; if (!emptySup) emptySup = &*supSets.insert(Bits()).first;
    e->op = op; e->sort = s; e->w = w; e->id = nextId++; e->aux = aux; e->a = a; e->b = b; e->c = c; e->q = nullptr; e->var = nullptr; e->z3b = e->z3v = nullptr; e->stamp = 0; e->ev = 0; e->evq = nullptr; e->edef = 0;
    const Bits* u = emptySup; if (a) u = uni(u, a->sup); if (b) u = uni(u, b->sup); if (c) u = uni(u, c->sup); e->sup = u;
    e->umin = e->umax = 0; e->smin = e->smax = 0; if (s == SBV) ranges(e);
    return e;
}
E node(Op op, Sort s, int w, uint64_t aux, E a, E b = nullptr, E c = nullptr) {
    Key k{op, (uint8_t)w, aux, a, b, c}; auto it = table.find(k); if (it != table.end()) return it->second;
    Expr* e = fresh(op, s, w, aux, a, b, c);
    E r = e; if (s == SBV && op != Op::Const && e->umin == e->umax) r = mkC(w, e->umin);
    table.emplace(k, r); return r;
}
uint64_t foldBin(Op op, uint64_t a, uint64_t b, int w) {
    uint64_t m = maskw(w); int64_t sa = sx(a, w), sb = sx(b, w);
    switch (op) {
    case Op::Add: return (a + b) & m; case Op::Sub: return (a - b) & m; case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? a / b : m; case Op::URem: return b ? a % b : a;
    case Op::SDiv: if (!sb) return sa < 0 ? 1 : m; if (sb == -1) return (0 - a) & m; return (uint64_t)(sa / sb) & m;
    case Op::SRem: if (!sb) return a; if (sb == -1) return 0; return (uint64_t)(sa % sb) & m;
    case Op::And: return a & b; case Op::Or: return a | b; case Op::Xor: return a ^ b;
    case Op::Shl: return b >= (uint64_t)w ? 0 : (a << b) & m; case Op::LShr: return b >= (uint64_t)w ? 0 : a >> b; case Op::AShr: return (uint64_t)(sa >> (b >= (uint64_t)w ? w - 1 : (int)b)) & m;
    case Op::Eq: return a == b; case Op::Ult: return a < b; case Op::Ule: return a <= b; case Op::Slt: return sa < sb; case Op::Sle: return sa <= sb;
    default: abort();
    }
}
int sbits(E e) { // signed bits needed
    int64_t lo = e->smin, hi = e->smax; int k = 1; while (k < 64 && !(lo >= -(int64_t)(1ull << (k - 1)) && hi <= (int64_t)((1ull << (k - 1)) - 1))) ++k; return k;
}
int sbitsI(i128 lo, i128 hi) { int k = 1; while (k < 120 && !(lo >= -((i128)1 << (k - 1)) && hi <= (((i128)1 << (k - 1)) - 1))) ++k; return k; }
int ubits(E e) { return e->umax ? 64 - __builtin_clzll(e->umax) : 1; }
} // namespace
uint64_t exprCount() { return nextId; }
E mkC(int w, uint64_t v) { return node(Op::Const, SBV, w, v & maskw(w), nullptr); }
static E regVar(Op op, Sort s, int w, const std::string& name, VarInfo** vi) {
    auto it = varByName.find(name); if (it != varByName.end()) { if (vi) *vi = it->second->var; return it->second; }
    VarInfo* v = new VarInfo; v->name = name; v->id = (int)vars.size(); vars.push_back(v);
    Expr* e = fresh(op, s, w, v->id, nullptr, nullptr, nullptr); Bits b(v->id / 64 + 1, 0); b[v->id / 64] |= 1ull << (v->id % 64); e->sup = &*supSets.insert(b).first; e->var = v;
    varExprs.push_back(e); varByName[name] = e; if (vi) *vi = v; return e;
}
E mkVar(int w, const std::string& n, VarInfo** vi) { return regVar(Op::Var, SBV, w, n, vi); }
E mkRVar(const std::string& n, VarInfo** vi) { return regVar(Op::RVar, SReal, 0, n, vi); }
E mkFVar(const std::string& n, VarInfo** vi) { return regVar(Op::FVar, SFP, 0, n, vi); }
const std::vector<VarInfo*>& allVars() { return vars; }
VarInfo* varById(int id) { return vars[id]; }
E varExpr(int id) { return varExprs[id]; }

E mkNot(E a) {
    if (a->op == Op::Const) return mkC(1, !a->aux);
    if (a->op == Op::Xor && a->b->op == Op::Const) return a->a;
    if (a->op == Op::Ult) return mkBin(Op::Ule, a->b, a->a);
    if (a->op == Op::Ule) return mkBin(Op::Ult, a->b, a->a);
    if (a->op == Op::Slt) return mkBin(Op::Sle, a->b, a->a);
    if (a->op == Op::Sle) return mkBin(Op::Slt, a->b, a->a);
    if (a->op == Op::RLt) return mkRCmp(Op::RLe, a->b, a->a);
    if (a->op == Op::RLe) return mkRCmp(Op::RLt, a->b, a->a);
    return node(Op::Xor, SBV, 1, 0, a, mkC(1, 1));
}
static E tighten(E r, E a) { // r and a have the same value (unsigned if it fits, signed if it fits)
    if (r->op == Op::Const || r->sort != SBV) return r; Expr* x = const_cast<Expr*>(r); uint64_t m = maskw(r->w); int64_t sm = (int64_t)(m >> 1), sn = -sm - 1;
    if (a->umax <= m) { if (a->umin > x->umin) x->umin = a->umin; if (a->umax < x->umax) x->umax = a->umax; }
    if (a->smin >= sn && a->smax <= sm) { if (a->smin > x->smin) x->smin = a->smin; if (a->smax < x->smax) x->smax = a->smax; }
    if (x->umax <= (uint64_t)sm) { if ((int64_t)x->umin > x->smin) x->smin = (int64_t)x->umin; if ((int64_t)x->umax < x->smax) x->smax = (int64_t)x->umax; }
    if (x->smin >= 0) { if ((uint64_t)x->smin > x->umin) x->umin = (uint64_t)x->smin; if ((uint64_t)x->smax < x->umax) x->umax = (uint64_t)x->smax; }
    return r;
}
static E mkExtract0(E a, int lo, int w);
E mkExtract(E a, int lo, int w) { E r = mkExtract0(a, lo, w); return lo == 0 && r != a && a->w <= 64 ? tighten(r, a) : r; }
static E mkExtract0(E a, int lo, int w) {
    if (lo == 0 && w == a->w) return a;
    if (a->op == Op::Const) return mkC(w, a->aux >> lo);
    if (a->op == Op::Extract) return mkExtract(a->a, lo + (int)a->aux, w);
    if (a->op == Op::ZExt || a->op == Op::SExt) {
        int iw = a->a->w; if (lo + w <= iw) return mkExtract(a->a, lo, w);
        if (lo == 0) return a->op == Op::ZExt ? mkZExt(a->a, w) : mkSExt(a->a, w);
        if (a->op == Op::ZExt && lo >= iw) return mkC(w, 0);
        if (a->op == Op::ZExt && lo < iw) return mkZExt(mkExtract(a->a, lo, iw - lo), w);
    }
    if (a->op == Op::Concat) { int lw = a->b->w; if (lo + w <= lw) return mkExtract(a->b, lo, w); if (lo >= lw) return mkExtract(a->a, lo - lw, w); }
    if (a->op == Op::Ite && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    if (lo == 0 && (a->op == Op::Add || a->op == Op::Sub || a->op == Op::Mul || a->op == Op::And || a->op == Op::Or || a->op == Op::Xor)) {
        auto cheap = [&](E x) { return x->op == Op::Const || ((x->op == Op::ZExt || x->op == Op::SExt) && x->a->w <= w) || (x->op == Op::Extract) || x->op == Op::Ite; };
        if (cheap(a->a) || cheap(a->b) || a->a->op == Op::Add || a->a->op == Op::Mul) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    }
    if (a->op == Op::Shl && a->b->op == Op::Const && lo == 0) { if (a->b->aux >= (uint64_t)w) return mkC(w, 0); return mkBin(Op::Shl, mkExtract(a->a, 0, w), mkC(w, a->b->aux)); }
    if (a->op == Op::LShr && a->b->op == Op::Const && lo + w + a->b->aux <= a->w) return mkExtract(a->a, lo + (int)a->b->aux, w);
    return node(Op::Extract, SBV, w, lo, a);
}
E mkZExt(E a, int w) {
    if (a->w == w) return a; if (a->op == Op::Const) return mkC(w, a->aux);
    if (a->op == Op::ZExt) return mkZExt(a->a, w);
    return node(Op::ZExt, SBV, w, 0, a);
}
E mkSExt(E a, int w) {
    if (a->w == w) return a; if (a->op == Op::Const) return mkC(w, (uint64_t)sx(a->aux, a->w));
    if (a->w > 1 && a->smin >= 0) return mkZExt(a, w);
    if (a->op == Op::SExt) return mkSExt(a->a, w);
    if (a->op == Op::ZExt) return mkZExt(a->a, w);
    return node(Op::SExt, SBV, w, 0, a);
}
E mkConcat(E hi, E lo) {
    if (hi->op == Op::Const && lo->op == Op::Const) return mkC(hi->w + lo->w, (hi->aux << lo->w) | lo->aux);
    if (hi->op == Op::Const && hi->aux == 0) return mkZExt(lo, hi->w + lo->w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(hi->a, (int)lo->aux, hi->w + lo->w);
    return node(Op::Concat, SBV, hi->w + lo->w, 0, hi, lo);
}
E mkIte(E c, E a, E b) {
    if (a == b) return a; if (c->op == Op::Const) return c->aux ? a : b;
    if (c->op == Op::Xor && c->b->op == Op::Const) return mkIte(c->a, b, a);
    if (a->sort == SBV && a->w == 1) {
        if (a->op == Op::Const && b->op == Op::Const) return a->aux ? c : mkNot(c);
        if (a->op == Op::Const) return a->aux ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
        if (b->op == Op::Const) return b->aux ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
    }
    if (a->sort == SReal) return node(Op::RIte, SReal, 0, 0, c, a, b);
    if (a->sort == SFP) return node(Op::FIte, SFP, 0, 0, c, a, b);
    if (a->op == Op::Ite && a->a == c) a = a->b;
    if (b->op == Op::Ite && b->a == c) b = b->c;
    if (a == b) return a;
    // narrow common extensions
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkZExt(mkIte(c, a->a, b->a), a->w);
    if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkSExt(mkIte(c, a->a, b->a), a->w);
    return node(Op::Ite, SBV, a->w, 0, c, a, b);
}
static bool inter(const Bits& a, const Bits& b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; ++i) if (a[i] & b[i]) return true; return false; }
// value of a (read as signed or unsigned) as k*x + c over the integers, x >= 0 read unsigned; false when not of that shape
static bool linForm(E a, bool sgn, E& x, i128& k, i128& c) {
    if (a->op == Op::ZExt) { if (a->a->op == Op::Add || a->a->op == Op::Mul || a->a->op == Op::ZExt) return linForm(a->a, false, x, k, c); x = a->a; k = 1; c = 0; return true; }
    if (a->op == Op::SExt && sgn) return linForm(a->a, true, x, k, c);
    i128 lo = sgn ? (i128)a->smin : (i128)a->umin, hi = sgn ? (i128)a->smax : (i128)a->umax; i128 mod = (i128)1 << a->w;
    if (a->op == Op::Add && a->b->op == Op::Const) { if (!linForm(a->a, a->a->smin < 0, x, k, c)) return false; c += sx(a->b->aux, a->w); }
    else if (a->op == Op::Mul && a->b->op == Op::Const) { if (!linForm(a->a, a->a->smin < 0, x, k, c)) return false; i128 q = sx(a->b->aux, a->w); k *= q; c *= q; }
    else { if (sgn && a->smin < 0) return false; x = a; k = 1; c = 0; return true; }
    if (k > ((i128)1 << 70) || k < -((i128)1 << 70)) return false; i128 v1 = k * (i128)x->umin + c, v2 = k * (i128)x->umax + c; if (v1 > v2) std::swap(v1, v2); i128 rlo = sgn ? -(mod >> 1) : 0, rhi = sgn ? (mod >> 1) - 1 : mod - 1;
    if (v1 >= rlo && v2 <= rhi) return true; i128 sh = 0; if (v2 < rlo) sh = mod; else if (v1 > rhi) sh = -mod; if (sh && v1 + sh >= rlo && v2 + sh <= rhi) { c += sh; return true; } (void)lo; (void)hi; return false;
}
static E linDiv(E a, i128 d, bool sgn, bool rem) {
    if (d <= 0) return nullptr;
    { E t = a; while (t->op == Op::ZExt || (t->op == Op::SExt && t->smin >= 0)) t = t->a;
      if (t->op == Op::Add && t->smin >= 0) for (int o = 0; o < 2; ++o) { E A = o ? t->b : t->a, B = o ? t->a : t->b, x; i128 k, c; if (A->smin < 0 || B->smin < 0 || (i128)B->smax >= d || (i128)A->smax + B->smax >= ((i128)1 << (t->w - 1))) continue; if (!linForm(A, false, x, k, c) || c != 0 || k <= 0 || k % d) continue; int w = a->w; auto fit = [&](E y) { return y->w < w ? mkZExt(y, w) : y->w > w ? mkExtract(y, 0, w) : y; }; if (rem) return fit(B); return mkBin(Op::Mul, fit(x), mkC(w, (uint64_t)(k / d))); } }
    E x; i128 k, c; if (!linForm(a, sgn, x, k, c) || k == 0 || k % d) return nullptr; if ((i128)x->umax >> 40) return nullptr; i128 v1 = k * (i128)x->umin + c, v2 = k * (i128)x->umax + c; if (v1 > v2) std::swap(v1, v2); i128 q;
    if (v1 >= 0) q = c >= 0 ? c / d : -((-c + d - 1) / d); else if (v2 <= 0) q = c <= 0 ? -(-c / d) : (c + d - 1) / d; else return nullptr;
    int w = a->w; if (rem) return mkC(w, (uint64_t)(c - d * q)); E xx = x->w < w ? mkZExt(x, w) : x->w > w ? mkExtract(x, 0, w) : x; return mkBin(Op::Add, mkBin(Op::Mul, xx, mkC(w, (uint64_t)(int64_t)(k / d))), mkC(w, (uint64_t)(int64_t)q));
}
static bool comm(Op o) { return o == Op::Add || o == Op::Mul || o == Op::And || o == Op::Or || o == Op::Xor || o == Op::Eq; }
E mkBin(Op op, E a, E b) {
    int w = a->w;
    if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch %d %d op %d\n", a->w, b->w, (int)op); abort(); }
    bool rel = isBoolOp(op); int rw = rel ? 1 : w;
    if (a->op == Op::Const && b->op == Op::Const) return mkC(rw, foldBin(op, a->aux, b->aux, w));
    if (comm(op) && (a->op == Op::Const || (b->op != Op::Const && a->id > b->id))) std::swap(a, b);
    uint64_t m = maskw(w);
    bool bc = b->op == Op::Const; uint64_t bv = bc ? b->aux : 0;
    if (!bc && (op == Op::Add || op == Op::Sub) && w > 1) { E x, y; i128 k1, c1, k2, c2; if (inter(*a->sup, *b->sup) && linForm(a, a->smin < 0, x, k1, c1) && linForm(b, b->smin < 0, y, k2, c2) && x == y) {
        i128 k = op == Op::Add ? k1 + k2 : k1 - k2, c = op == Op::Add ? c1 + c2 : c1 - c2; if (k == 0) return mkC(w, (uint64_t)c); E xx = x->w < w ? mkZExt(x, w) : x->w > w ? mkExtract(x, 0, w) : x; return mkBin(Op::Add, mkBin(Op::Mul, xx, mkC(w, (uint64_t)k)), mkC(w, (uint64_t)c)); } }
    switch (op) {
    case Op::Add:
        if (bc && bv == 0) return a;
        if (bc && a->op == Op::Add && a->b->op == Op::Const) return mkBin(Op::Add, a->a, mkC(w, a->b->aux + bv));
        if (bc && a->op == Op::Ite && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
        if (w == 1) return mkBin(Op::Xor, a, b);
        if (!bc && a->op == Op::Add && a->b->op == Op::Const) return mkBin(Op::Add, mkBin(Op::Add, a->a, b), a->b);
        if (!bc && b->op == Op::Add && b->b->op == Op::Const) return mkBin(Op::Add, mkBin(Op::Add, b->a, a), b->b);
        // (x - y) + y
        if (a->op == Op::Sub && a->b == b) return a->a;
        if (b->op == Op::Sub && b->b == a) return b->a;
        break;
    case Op::Sub:
        if (a == b) return mkC(w, 0);
        if (bc) return mkBin(Op::Add, a, mkC(w, 0 - bv));
        if (w == 1) return mkBin(Op::Xor, a, b);
        if (a->op == Op::Add && a->b->op == Op::Const) return mkBin(Op::Add, mkBin(Op::Sub, a->a, b), a->b);
        if (b->op == Op::Add && b->b->op == Op::Const) return mkBin(Op::Add, mkBin(Op::Sub, a, b->a), mkC(w, 0 - b->b->aux));
        if (a->op == Op::Add && a->a == b) return a->b;
        if (a->op == Op::Add && a->b == b) return a->a;
        break;
    case Op::Mul:
        if (bc && bv == 0) return b; if (bc && bv == 1) return a;
        if (w == 1) return mkBin(Op::And, a, b);
        if (bc && a->op == Op::Mul && a->b->op == Op::Const) return mkBin(Op::Mul, a->a, mkC(w, a->b->aux * bv));
        if (bc && a->op == Op::Ite && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
        { i128 p[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax}; i128 lo = p[0], hi = p[0]; for (auto x : p) { if (x < lo) lo = x; if (x > hi) hi = x; }
          int k = std::max(sbitsI(lo, hi), std::max(sbits(a), sbits(b))); if (k + 1 < w && w > 8) return mkSExt(mkBin(Op::Mul, mkExtract(a, 0, k), mkExtract(b, 0, k)), w); }
        break;
    case Op::UDiv:
        if (bc && bv == 1) return a; if (bc && bv && a->umin / bv == a->umax / bv) return mkC(w, a->umin / bv);
        if (bc && w <= 64 && bv < (1ull << 31)) { if (E r = linDiv(a, bv, false, false)) return r; }
        if (bc && bv && !(bv & (bv - 1))) return mkBin(Op::LShr, a, mkC(w, __builtin_ctzll(bv)));
        { int k = std::max(ubits(a), ubits(b)); if (k < w && b->umin > 0) return mkZExt(mkBin(op, mkExtract(a, 0, k), mkExtract(b, 0, k)), w); }
        break;
    case Op::URem:
        if (bc && bv == 1) return mkC(w, 0); if (bc && bv && a->umin / bv == a->umax / bv) return mkBin(Op::Sub, a, mkC(w, a->umin / bv * bv));
        if (bc && bv < (1ull << 31)) { if (E r = linDiv(a, bv, false, true)) return r; }
        if (bc && bv && !(bv & (bv - 1))) return mkBin(Op::And, a, mkC(w, bv - 1));
        if (b->umin > a->umax) return a;
        { int k = std::max(ubits(a), ubits(b)); if (k < w && b->umin > 0) return mkZExt(mkBin(op, mkExtract(a, 0, k), mkExtract(b, 0, k)), w); }
        break;
    case Op::SDiv: case Op::SRem:
        if (bc && bv == 1) return op == Op::SDiv ? a : mkC(w, 0);
        if (a->smin >= 0 && b->smin > 0) return mkBin(op == Op::SDiv ? Op::UDiv : Op::URem, a, b);
        if (bc && b->smin > 0 && w <= 64 && a->smin / (int64_t)b->smin == a->smax / (int64_t)b->smin && (a->smin < 0) == (a->smax < 0)) { uint64_t q = (uint64_t)(a->smin / (int64_t)b->smin); return op == Op::SDiv ? mkC(w, q) : mkBin(Op::Sub, a, mkC(w, q * bv)); }
        if (bc && b->smin > 0 && bv < (1ull << 31)) { if (E r = linDiv(a, bv, true, op == Op::SRem)) return r; }
        if (b->smin > 0 || b->smax < 0) { int k = std::max(sbits(a), sbits(b)) + 1; if (k < w) return mkSExt(mkBin(op, mkExtract(a, 0, k), mkExtract(b, 0, k)), w); }
        break;
    case Op::And:
        if (a == b) return a; if (bc && bv == 0) return b; if (bc && bv == m) return a;
        if (bc && (bv & (bv + 1)) == 0 && a->umax <= bv) return a;
        if (bc && (bv & (bv + 1)) == 0) return mkZExt(mkExtract(a, 0, __builtin_popcountll(bv)), w);
        if (bc && a->op == Op::And && a->b->op == Op::Const) return mkBin(Op::And, a->a, mkC(w, a->b->aux & bv));
        if (w == 1) { if (mkNot(a) == b) return mkC(1, 0); }
        break;
    case Op::Or:
        if (a == b) return a; if (bc && bv == 0) return a; if (bc && bv == m) return b;
        if (w == 1) { if (mkNot(a) == b) return mkC(1, 1); }
        { // (zext lo) | (x << k) with disjoint bits -> concat
            E s = nullptr, z = nullptr; if (a->op == Op::Shl && a->b->op == Op::Const) { s = a; z = b; } else if (b->op == Op::Shl && b->b->op == Op::Const) { s = b; z = a; }
            if (s && z->umax < (1ull << s->b->aux)) { int k = (int)s->b->aux; return mkConcat(mkExtract(s->a, 0, w - k), mkExtract(z, 0, k)); } }
        break;
    case Op::Xor:
        if (a == b) return mkC(w, 0); if (bc && bv == 0) return a;
        if (w == 1 && bc) return mkNot(a);
        if (bc && a->op == Op::Xor && a->b->op == Op::Const) return mkBin(Op::Xor, a->a, mkC(w, a->b->aux ^ bv));
        break;
    case Op::Shl: case Op::LShr: case Op::AShr:
        if (bc && bv == 0) return a;
        if (a->op == Op::Const && a->aux == 0) return a;
        if (bc && bv >= (uint64_t)w && op != Op::AShr) return mkC(w, 0);
        if (op == Op::AShr && a->smin >= 0 && w > 1) return mkBin(Op::LShr, a, b);
        if (bc && op == Op::Shl) { int k = (int)bv; if (a->smin >= 0 || true) return mkConcat(mkExtract(a, 0, w - k), mkC(k, 0)); }
        if (bc && op == Op::LShr) return mkZExt(mkExtract(a, (int)bv, w - (int)bv), w);
        if (bc && op == Op::AShr) { int k = std::min<int>((int)bv, w - 1); return mkSExt(mkExtract(a, k, w - k), w); }
        break;
    case Op::Eq:
        if (a == b) return mkC(1, 1);
        if (a->umin > b->umax || a->umax < b->umin || a->smin > b->smax || a->smax < b->smin) return mkC(1, 0);
        if (w == 1 && bc) return bv ? a : mkNot(a);
        if (bc && a->op == Op::Add && a->b->op == Op::Const) return mkBin(Op::Eq, a->a, mkC(w, bv - a->b->aux));
        if (a->op == Op::Add && b->op == Op::Add && a->b->op == Op::Const && b->b == a->b) return mkBin(Op::Eq, a->a, b->a);
        if (bc && a->op == Op::ZExt) { if (bv & ~maskw(a->a->w)) return mkC(1, 0); return mkBin(Op::Eq, a->a, mkC(a->a->w, bv)); }
        if (bc && a->op == Op::SExt) { uint64_t t = bv & maskw(a->a->w); if (((uint64_t)sx(t, a->a->w) & m) != bv) return mkC(1, 0); return mkBin(Op::Eq, a->a, mkC(a->a->w, t)); }
        if (bc && a->op == Op::Concat) return mkAnd1(mkBin(Op::Eq, a->a, mkC(a->a->w, bv >> a->b->w)), mkBin(Op::Eq, a->b, mkC(a->b->w, bv)));
        if (a->op == b->op && (a->op == Op::ZExt || a->op == Op::SExt) && a->a->w == b->a->w) return mkBin(Op::Eq, a->a, b->a);
        if (bc && a->op == Op::Ite && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkBin(Op::Eq, a->b, b), mkBin(Op::Eq, a->c, b));
        if (bc && a->op == Op::Sub && bv == 0) return mkBin(Op::Eq, a->a, a->b);
        if (bc && a->op == Op::Xor && bv == 0) return mkBin(Op::Eq, a->a, a->b);
        if (bc && a->op == Op::Xor && a->b->op == Op::Const) return mkBin(Op::Eq, a->a, mkC(w, bv ^ a->b->aux));
        break;
    case Op::Ult: if (a == b) return mkC(1, 0); if (a->umax < b->umin) return mkC(1, 1); if (a->umin >= b->umax) return mkC(1, 0);
        if (bc && bv == 1) return mkEq(a, mkC(w, 0));
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
        if (a->op == Op::ZExt && bc && bv <= maskw(a->a->w)) return mkBin(op, a->a, mkC(a->a->w, bv));
        if (b->op == Op::ZExt && a->op == Op::Const && a->aux <= maskw(b->a->w)) return mkBin(op, mkC(b->a->w, a->aux), b->a);
        if (a->op == Op::Ite && bc && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
        break;
    case Op::Ule: if (a == b) return mkC(1, 1); if (a->umax <= b->umin) return mkC(1, 1); if (a->umin > b->umax) return mkC(1, 0);
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
        if (a->op == Op::ZExt && bc && bv <= maskw(a->a->w)) return mkBin(op, a->a, mkC(a->a->w, bv));
        if (b->op == Op::ZExt && a->op == Op::Const && a->aux <= maskw(b->a->w)) return mkBin(op, mkC(b->a->w, a->aux), b->a);
        if (a->op == Op::Ite && bc && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
        break;
    case Op::Slt: if (a == b) return mkC(1, 0); if (a->smax < b->smin) return mkC(1, 1); if (a->smin >= b->smax) return mkC(1, 0);
        if (a->smin >= 0 && b->smin >= 0) return mkBin(Op::Ult, a, b);
        if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
        break;
    case Op::Sle: if (a == b) return mkC(1, 1); if (a->smax <= b->smin) return mkC(1, 1); if (a->smin > b->smax) return mkC(1, 0);
        if (a->smin >= 0 && b->smin >= 0) return mkBin(Op::Ule, a, b);
        if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
        break;
    default: break;
    }
    return node(op, SBV, rw, 0, a, b);
}
// ---- reals
E mkR(const mpq_class& q0) { mpq_class q(q0); q.canonicalize(); auto it = rconsts.find(q); if (it != rconsts.end()) return it->second; Expr* e = fresh(Op::RConst, SReal, 0, 0, nullptr, nullptr, nullptr); e->q = new mpq_class(q); rconsts[q] = e; return e; }
static bool rc(E e) { return e->op == Op::RConst; }
E mkRAdd(E a, E b) {
    if (rc(a) && rc(b)) return mkR(*a->q + *b->q);
    if (rc(a)) std::swap(a, b);
    if (rc(b) && *b->q == 0) return a;
    if (rc(b) && a->op == Op::RAdd && rc(a->b)) return mkRAdd(a->a, mkR(*a->b->q + *b->q));
    if (!rc(b) && a->id > b->id) std::swap(a, b);
    return node(Op::RAdd, SReal, 0, 0, a, b);
}
E mkRNeg(E a) { return mkRMul(mkR(-1), a); }
E mkRSub(E a, E b) { if (a == b) return mkR(0); return mkRAdd(a, mkRNeg(b)); }
E mkRMul(E a, E b) {
    if (rc(a) && rc(b)) return mkR(*a->q * *b->q);
    if (rc(b)) std::swap(a, b);
    if (rc(a)) { if (*a->q == 0) return a; if (*a->q == 1) return b; if (b->op == Op::RMul && rc(b->a)) return mkRMul(mkR(*a->q * *b->a->q), b->b); }
    else { if (a->op == Op::RMul && rc(a->a)) return mkRMul(a->a, mkRMul(a->b, b)); if (b->op == Op::RMul && rc(b->a)) return mkRMul(b->a, mkRMul(a, b->b)); if (a->id > b->id) std::swap(a, b); }
    return node(Op::RMul, SReal, 0, 0, a, b);
}
E mkRDiv(E a, E b) {
    if (rc(b) && *b->q != 0) return mkRMul(mkR(1 / *b->q), a);
    if (rc(a) && *a->q == 0) return a;
    return node(Op::RDiv, SReal, 0, 0, a, b);
}
E mkRCmp(Op op, E a, E b) {
    if (rc(a) && rc(b)) { int c = cmp(*a->q, *b->q); return mkC(1, op == Op::REq ? c == 0 : op == Op::RLt ? c < 0 : c <= 0); }
    if (a == b) return mkC(1, op != Op::RLt);
    if (op == Op::REq && a->id > b->id) std::swap(a, b);
    return node(op, SBV, 1, 0, a, b);
}
E mkRFromS(E a) { if (a->op == Op::Const) { mpq_class q; q = (long)sx(a->aux, a->w); return mkR(q); } return node(Op::RFromS, SReal, 0, 0, a); }
// ---- IEEE
E mkF(double d) { uint64_t v; memcpy(&v, &d, 8); return node(Op::FConst, SFP, 0, v, nullptr); }
static double fv(E e) { double d; memcpy(&d, &e->aux, 8); return d; }
E mkFOp(Op op, int w, Sort s, E a, E b, uint64_t aux) {
    if (a && a->op == Op::FConst && (!b || b->op == Op::FConst)) {
        double x = fv(a), y = b ? fv(b) : 0;
        switch (op) {
        case Op::FAdd: return mkF(x + y); case Op::FSub: return mkF(x - y); case Op::FMul: return mkF(x * y); case Op::FDiv: return mkF(x / y); case Op::FRem: return mkF(fmod(x, y));
        case Op::FNeg: return mkF(-x); case Op::FAbs: return mkF(fabs(x)); case Op::FSqrt: return mkF(sqrt(x));
        case Op::FEq: return mkC(1, x == y); case Op::FLt: return mkC(1, x < y); case Op::FLe: return mkC(1, x <= y); case Op::FIsNan: return mkC(1, x != x); case Op::FIsInf: return mkC(1, std::isinf(x));
        case Op::FToBits: return mkC(64, a->aux);
        default: break;
        }
    }
    if (op == Op::FFromBits && a->op == Op::Const) { double d; memcpy(&d, &a->aux, 8); return mkF(d); }
    if (op == Op::FFromBits && a->op == Op::FToBits) return a->a;
    if (op == Op::FToBits && a->op == Op::FFromBits) return a->a;
    if (op == Op::FFromS && a->op == Op::Const) return mkF((double)sx(a->aux, a->w));
    if (op == Op::FFromU && a->op == Op::Const) return mkF((double)a->aux);
    return node(op, s, w, aux, a, b);
}
std::string show(E e, int d) {
    static const char* names[] = {"const","var","+","-","*","udiv","sdiv","urem","srem","&","|","^","shl","lshr","ashr","concat","extract","zext","sext","ite","=","ult","ule","slt","sle","rc","rv","r+","r*","r/","rite","r=","r<","r<=","s2r","fc","fv","f+","f-","f*","f/","frem","fneg","fabs","fsqrt","fround","fite","f=","f<","f<=","nan","isinf","s2f","u2f","f2s","f2b","b2f"};
    if (e->op == Op::Const) return std::to_string(e->w == 1 ? (int64_t)e->aux : sx(e->aux, e->w)); if (e->op == Op::RConst) return e->q->get_str(); if (e->op == Op::FConst) return std::to_string(fv(e));
    if (e->var) return e->var->name; if (d == 0) return "..";
    std::string s = std::string("(") + names[(int)e->op]; if (e->op == Op::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
    for (E x : {e->a, e->b, e->c}) if (x) s += " " + show(x, d - 1); return s + ")";
}
