#include <map>
#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cmath>
#include <algorithm>
SolverStats g_ss; uint64_t Model::next = 0; std::string g_dumpDir;
static Z3_context C; static unsigned g_seed;
double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string zerr;
static void onErr(Z3_context c, Z3_error_code e) { zerr = Z3_get_error_msg(c, e); }
void solverInit(unsigned seed) { g_seed = seed; Z3_config cfg = Z3_mk_config(); C = Z3_mk_context_rc(cfg); Z3_set_error_handler(C, onErr); }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_sort keepS(Z3_sort s) { Z3_inc_ref(C, Z3_sort_to_ast(C, s)); return s; }
static Z3_sort bvS(unsigned w) { static Z3_sort t[129]; if (!t[w]) t[w] = keepS(Z3_mk_bv_sort(C, w)); return t[w]; }
static Z3_sort realS() { static Z3_sort s = keepS(Z3_mk_real_sort(C)); return s; }
static Z3_sort fpS() { static Z3_sort s = keepS(Z3_mk_fpa_sort_64(C)); return s; }
static Z3_ast rmode(int k) { static Z3_ast t[4]; if (!t[k]) t[k] = keep(k == 0 ? Z3_mk_fpa_rtn(C) : k == 1 ? Z3_mk_fpa_rtp(C) : k == 2 ? Z3_mk_fpa_rtz(C) : Z3_mk_fpa_rne(C)); return t[k]; }
static Z3_ast bvN(uint64_t v, unsigned w) { static std::map<std::pair<uint64_t, unsigned>, Z3_ast> t; Z3_ast& r = t[{v, w}]; if (!r) r = keep(Z3_mk_unsigned_int64(C, v, bvS(w))); return r; }
static Z3_ast tB(E e); static Z3_ast tV(E e);
static Z3_ast rconst(const mpq_class& q) { return Z3_mk_numeral(C, q.get_str().c_str(), realS()); }
static bool predicate(E e) { return e->w == 1 && e->sort == SBV; }
static Z3_ast tB(E e) {
    if (e->z3b) return (Z3_ast)e->z3b;
    Z3_ast r;
    auto bin = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { return f(C, tV(e->a), tV(e->b)); };
    switch (e->op) {
    case Op::Const: r = e->aux ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case Op::Eq: if (e->a->w == 1) r = Z3_mk_iff(C, tB(e->a), tB(e->b)); else r = bin(Z3_mk_eq); break;
    case Op::Ult: r = bin(Z3_mk_bvult); break; case Op::Ule: r = bin(Z3_mk_bvule); break; case Op::Slt: r = bin(Z3_mk_bvslt); break; case Op::Sle: r = bin(Z3_mk_bvsle); break;
    case Op::REq: r = bin(Z3_mk_eq); break; case Op::RLt: r = bin(Z3_mk_lt); break; case Op::RLe: r = bin(Z3_mk_le); break;
    case Op::FEq: r = bin(Z3_mk_fpa_eq); break; case Op::FLt: r = bin(Z3_mk_fpa_lt); break; case Op::FLe: r = bin(Z3_mk_fpa_leq); break;
    case Op::FIsNan: r = Z3_mk_fpa_is_nan(C, tV(e->a)); break; case Op::FIsInf: r = Z3_mk_fpa_is_infinite(C, tV(e->a)); break;
    case Op::And: { Z3_ast x[2] = {tB(e->a), tB(e->b)}; r = Z3_mk_and(C, 2, x); break; }
    case Op::Or: { Z3_ast x[2] = {tB(e->a), tB(e->b)}; r = Z3_mk_or(C, 2, x); break; }
    case Op::Xor: r = e->b->op == Op::Const && e->b->aux ? Z3_mk_not(C, tB(e->a)) : Z3_mk_xor(C, tB(e->a), tB(e->b)); break;
    case Op::Ite: r = Z3_mk_ite(C, tB(e->a), tB(e->b), tB(e->c)); break;
    default: r = Z3_mk_eq(C, tV(e), bvN(1, 1)); break;
    }
    e->z3b = keep(r); return r;
}
static Z3_ast tV(E e) {
    if (e->z3v) return (Z3_ast)e->z3v;
    Z3_ast r = nullptr;
    auto bin = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { return f(C, tV(e->a), tV(e->b)); };
    Z3_ast rm = nullptr; if (e->sort == SFP || e->op == Op::FToS) rm = rmode(3);
    Z3_sort fs = nullptr; if (e->sort == SFP) fs = fpS();
    bool boolish = predicate(e) && (e->op == Op::Eq || e->op == Op::Ult || e->op == Op::Ule || e->op == Op::Slt || e->op == Op::Sle || e->op == Op::REq || e->op == Op::RLt || e->op == Op::RLe || e->op == Op::FEq || e->op == Op::FLt || e->op == Op::FLe || e->op == Op::FIsNan || e->op == Op::FIsInf || e->op == Op::And || e->op == Op::Or || e->op == Op::Xor || e->op == Op::Ite);
    if (boolish) { r = Z3_mk_ite(C, tB(e), bvN(1, 1), bvN(0, 1)); e->z3v = keep(r); return r; }
    switch (e->op) {
    case Op::Const: r = bvN(e->aux, e->w); break;
    case Op::Var: r = Z3_mk_const(C, Z3_mk_string_symbol(C, e->var->name.c_str()), bvS(e->w)); break;
    case Op::Add: r = bin(Z3_mk_bvadd); break; case Op::Sub: r = bin(Z3_mk_bvsub); break; case Op::Mul: r = bin(Z3_mk_bvmul); break;
    case Op::UDiv: r = bin(Z3_mk_bvudiv); break; case Op::SDiv: r = bin(Z3_mk_bvsdiv); break; case Op::URem: r = bin(Z3_mk_bvurem); break; case Op::SRem: r = bin(Z3_mk_bvsrem); break;
    case Op::And: r = bin(Z3_mk_bvand); break; case Op::Or: r = bin(Z3_mk_bvor); break; case Op::Xor: r = bin(Z3_mk_bvxor); break;
    case Op::Shl: r = bin(Z3_mk_bvshl); break; case Op::LShr: r = bin(Z3_mk_bvlshr); break; case Op::AShr: r = bin(Z3_mk_bvashr); break;
    case Op::Concat: r = bin(Z3_mk_concat); break;
    case Op::Extract: r = Z3_mk_extract(C, (unsigned)e->aux + e->w - 1, (unsigned)e->aux, tV(e->a)); break;
    case Op::ZExt: r = Z3_mk_zero_ext(C, e->w - e->a->w, tV(e->a)); break;
    case Op::SExt: r = Z3_mk_sign_ext(C, e->w - e->a->w, tV(e->a)); break;
    case Op::Ite: case Op::RIte: case Op::FIte: r = Z3_mk_ite(C, tB(e->a), tV(e->b), tV(e->c)); break;
    case Op::RConst: r = rconst(*e->q); break;
    case Op::RVar: r = Z3_mk_const(C, Z3_mk_string_symbol(C, e->var->name.c_str()), realS()); break;
    case Op::RAdd: { Z3_ast x[2] = {tV(e->a), tV(e->b)}; r = Z3_mk_add(C, 2, x); break; }
    case Op::RMul: { Z3_ast x[2] = {tV(e->a), tV(e->b)}; r = Z3_mk_mul(C, 2, x); break; }
    case Op::RDiv: r = Z3_mk_div(C, tV(e->a), tV(e->b)); break;
    case Op::RFromS: r = Z3_mk_int2real(C, Z3_mk_bv2int(C, tV(e->a), true)); break;
    case Op::FConst: r = Z3_mk_fpa_to_fp_bv(C, bvN(e->aux, 64), fs); break;
    case Op::FVar: r = Z3_mk_const(C, Z3_mk_string_symbol(C, e->var->name.c_str()), fs); break;
    case Op::FAdd: r = Z3_mk_fpa_add(C, rm, tV(e->a), tV(e->b)); break; case Op::FSub: r = Z3_mk_fpa_sub(C, rm, tV(e->a), tV(e->b)); break;
    case Op::FMul: r = Z3_mk_fpa_mul(C, rm, tV(e->a), tV(e->b)); break; case Op::FDiv: r = Z3_mk_fpa_div(C, rm, tV(e->a), tV(e->b)); break;
    case Op::FNeg: r = Z3_mk_fpa_neg(C, tV(e->a)); break; case Op::FAbs: r = Z3_mk_fpa_abs(C, tV(e->a)); break; case Op::FSqrt: r = Z3_mk_fpa_sqrt(C, rm, tV(e->a)); break;
    case Op::FRound: r = Z3_mk_fpa_round_to_integral(C, e->aux == 0 ? rmode(0) : e->aux == 1 ? rmode(1) : e->aux == 2 ? rmode(2) : rmode(3), tV(e->a)); break;
    case Op::FFromS: r = Z3_mk_fpa_to_fp_signed(C, rm, tV(e->a), fs); break; case Op::FFromU: r = Z3_mk_fpa_to_fp_unsigned(C, rm, tV(e->a), fs); break;
    case Op::FToS: r = Z3_mk_fpa_to_sbv(C, rmode(2), tV(e->a), e->w); break;
    case Op::FToBits: r = Z3_mk_fpa_to_ieee_bv(C, tV(e->a)); break;
    case Op::FFromBits: r = Z3_mk_fpa_to_fp_bv(C, tV(e->a), fs); break;
    default: fprintf(stderr, "tV: op %d\n", (int)e->op); abort();
    }
    e->z3v = keep(r); return r;
}
// ---- evaluation
static double bd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t db(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static bool ev(E e, const Model& m);
static uint64_t foldB(Op op, uint64_t a, uint64_t b, int w) {
    uint64_t mk = maskw(w); int64_t sa = sx(a, w), sb = sx(b, w);
    switch (op) {
    case Op::Add: return (a + b) & mk; case Op::Sub: return (a - b) & mk; case Op::Mul: return (a * b) & mk;
    case Op::UDiv: return b ? a / b : mk; case Op::URem: return b ? a % b : a;
    case Op::SDiv: if (!sb) return sa < 0 ? 1 : mk; if (sb == -1) return (0 - a) & mk; return (uint64_t)(sa / sb) & mk;
    case Op::SRem: if (!sb) return a; if (sb == -1) return 0; return (uint64_t)(sa % sb) & mk;
    case Op::And: return a & b; case Op::Or: return a | b; case Op::Xor: return a ^ b;
    case Op::Shl: return b >= (uint64_t)w ? 0 : (a << b) & mk; case Op::LShr: return b >= (uint64_t)w ? 0 : a >> b; case Op::AShr: return (uint64_t)(sa >> (b >= (uint64_t)w ? w - 1 : (int)b)) & mk;
    case Op::Eq: return a == b; case Op::Ult: return a < b; case Op::Ule: return a <= b; case Op::Slt: return sa < sb; case Op::Sle: return sa <= sb;
    default: abort();
    }
}
static bool ev(E e, const Model& m) {
    if (e->stamp == m.id) return e->edef;
    bool def = true; uint64_t r = 0; mpq_class q;
    switch (e->op) {
    case Op::Const: case Op::FConst: r = e->aux; break;
    case Op::RConst: q = *e->q; break;
    case Op::Var: { auto it = m.v.find(e->var->id); if (it == m.v.end() && e->var->axioms.size()) def = false; r = it == m.v.end() ? 0 : it->second.bv; break; }
    case Op::FVar: { auto it = m.v.find(e->var->id); r = it == m.v.end() ? 0 : it->second.bv; break; }
    case Op::RVar: { auto it = m.v.find(e->var->id); if (it == m.v.end()) { if (e->var->axioms.size()) def = false; q = 0; } else { q = it->second.q; if (it->second.inexact) def = false; } break; }
    case Op::Ite: case Op::RIte: case Op::FIte: { def = ev(e->a, m); if (def) { E s = e->a->ev ? e->b : e->c; def = ev(s, m); if (def) { r = s->ev; if (e->op == Op::RIte) q = *s->evq; } } break; }
    case Op::ZExt: def = ev(e->a, m); r = e->a->ev; break;
    case Op::SExt: def = ev(e->a, m); r = (uint64_t)sx(e->a->ev, e->a->w) & maskw(e->w); break;
    case Op::Extract: def = ev(e->a, m); r = (e->a->ev >> e->aux) & maskw(e->w); break;
    case Op::Concat: def = ev(e->a, m) & ev(e->b, m); r = (e->a->ev << e->b->w) | e->b->ev; break;
    case Op::And: case Op::Or: {
        bool da = ev(e->a, m), dd = ev(e->b, m); uint64_t absorb = e->op == Op::And ? 0 : maskw(e->w);
        if (da && e->a->ev == absorb) r = absorb; else if (dd && e->b->ev == absorb) r = absorb; else if (da && dd) r = foldB(e->op, e->a->ev, e->b->ev, e->w); else def = false; break; }
    case Op::RAdd: def = ev(e->a, m) && ev(e->b, m); if (def) q = *e->a->evq + *e->b->evq; break;
    case Op::RMul: def = ev(e->a, m); if (def && *e->a->evq == 0) { q = 0; break; } if (ev(e->b, m)) { if (*e->b->evq == 0) { def = true; q = 0; } else if (def) q = *e->a->evq * *e->b->evq; } else def = false; break;
    case Op::RDiv: def = ev(e->a, m) && ev(e->b, m); if (def) { if (*e->b->evq == 0) def = false; else q = *e->a->evq / *e->b->evq; } break;
    case Op::RFromS: def = ev(e->a, m); q = (long)sx(e->a->ev, e->a->w); break;
    case Op::REq: case Op::RLt: case Op::RLe: def = ev(e->a, m) && ev(e->b, m); if (def) { int c = cmp(*e->a->evq, *e->b->evq); r = e->op == Op::REq ? c == 0 : e->op == Op::RLt ? c < 0 : c <= 0; } break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: case Op::FEq: case Op::FLt: case Op::FLe: {
        def = ev(e->a, m) & ev(e->b, m); double x = bd(e->a->ev), y = bd(e->b->ev);
        switch (e->op) { case Op::FAdd: r = db(x + y); break; case Op::FSub: r = db(x - y); break; case Op::FMul: r = db(x * y); break; case Op::FDiv: r = db(x / y); break; case Op::FRem: r = db(fmod(x, y)); break; case Op::FEq: r = x == y; break; case Op::FLt: r = x < y; break; default: r = x <= y; } break; }
    case Op::FNeg: def = ev(e->a, m); r = e->a->ev ^ (1ull << 63); break; case Op::FAbs: def = ev(e->a, m); r = e->a->ev & ~(1ull << 63); break; case Op::FSqrt: def = ev(e->a, m); r = db(sqrt(bd(e->a->ev))); break;
    case Op::FRound: { def = ev(e->a, m); double x = bd(e->a->ev); r = db(e->aux == 0 ? floor(x) : e->aux == 1 ? ceil(x) : e->aux == 2 ? trunc(x) : nearbyint(x)); break; }
    case Op::FIsNan: def = ev(e->a, m); r = std::isnan(bd(e->a->ev)); break; case Op::FIsInf: def = ev(e->a, m); r = std::isinf(bd(e->a->ev)); break;
    case Op::FFromS: def = ev(e->a, m); r = db((double)sx(e->a->ev, e->a->w)); break; case Op::FFromU: def = ev(e->a, m); r = db((double)e->a->ev); break;
    case Op::FToS: { def = ev(e->a, m); double x = bd(e->a->ev); if (!(std::fabs(x) < 9e18)) def = false; else r = (uint64_t)(int64_t)x & maskw(e->w); break; }
    case Op::FToBits: case Op::FFromBits: def = ev(e->a, m); r = e->a->ev; break;
    default: { def = ev(e->a, m) & ev(e->b, m); if (def) r = foldB(e->op, e->a->ev, e->b->ev, e->a->w); }
    }
    e->stamp = m.id; e->edef = def; e->ev = r; if (e->sort == SReal) { if (!e->evq) e->evq = new mpq_class; *e->evq = q; }
    return def;
}
bool evalUnder(E e, const Model& m, uint64_t& bv, mpq_class* q) { bool d = ev(e, m); bv = e->ev; if (q && e->sort == SReal) *q = *e->evq; return d; }
// ---- solving
struct QKey { std::vector<uint32_t> ids; bool operator<(const QKey& o) const { return ids < o.ids; } };
static std::map<std::vector<uint32_t>, std::pair<Res, ModelP>> qcache; static std::map<std::vector<uint32_t>, unsigned> qtmo;
static bool inter(const Bits& a, const Bits& b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; ++i) if (a[i] & b[i]) return true; return false; }
static void orIn(Bits& a, const Bits& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] |= b[i]; }
static int solverTry(const char* logic, const std::vector<E>& cs, unsigned tmo, const std::vector<int>& vars, std::shared_ptr<Model>& m, const ModelP& base) {
    Z3_solver s = logic ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, logic)) : Z3_mk_solver(C); Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), tmo); if (g_seed > 1) Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "random_seed"), g_seed); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
    zerr.clear();
    for (E c : cs) Z3_solver_assert(C, s, tB(c));
    Z3_lbool r = Z3_solver_check(C, s); int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (!zerr.empty() && res == 0) { fprintf(stderr, "z3 error: %s\n", zerr.c_str()); res = -1; }
    if (res == 1) {
        Z3_model zm = Z3_solver_get_model(C, s); if (!zm) res = -1; else {
            Z3_model_inc_ref(C, zm); m = base ? std::make_shared<Model>(*base) : std::make_shared<Model>();
            for (int v : vars) {
                E e = varExpr(v); Z3_ast val = nullptr; if (!Z3_model_eval(C, zm, tV(e), true, &val)) continue; Z3_inc_ref(C, val); MVal mv;
                if (e->sort == SBV) { uint64_t u = 0; if (Z3_get_numeral_uint64(C, val, &u)) mv.bv = u; }
                else if (e->sort == SReal) { if (Z3_is_algebraic_number(C, val)) { Z3_ast lo = Z3_get_algebraic_number_lower(C, val, 20); Z3_inc_ref(C, lo); mv.q.set_str(Z3_get_numeral_string(C, lo), 10); Z3_dec_ref(C, lo); mv.inexact = true; } else mv.q.set_str(Z3_get_numeral_string(C, val), 10); mv.q.canonicalize(); }
                else { Z3_ast bits = Z3_mk_fpa_to_ieee_bv(C, val); Z3_inc_ref(C, bits); Z3_ast sb = Z3_simplify(C, bits); uint64_t u = 0; Z3_get_numeral_uint64(C, sb, &u); mv.bv = u; Z3_dec_ref(C, bits); }
                Z3_dec_ref(C, val); m->v[v] = mv;
            }
            Z3_model_dec_ref(C, zm);
        }
    }
    Z3_solver_dec_ref(C, s); return res;
}
Res solve(const std::vector<E>& path, E extra, const ModelP& base, ModelP& out, unsigned tmo, bool full) {
    if (extra && extra->op == Op::Const && !extra->aux) return Res::Unsat;
    Bits S; std::vector<char> inc(path.size(), 0); std::vector<E> cs; if (extra) { orIn(S, *extra->sup); cs.push_back(extra); }
    std::set<int> axDone; bool ch = true; std::set<E> have;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < path.size(); ++i) if (!inc[i] && (full || inter(S, *path[i]->sup))) { inc[i] = 1; if (have.insert(path[i]).second) cs.push_back(path[i]); orIn(S, *path[i]->sup); ch = true; }
        for (size_t wd = 0; wd < S.size(); ++wd) for (uint64_t b = S[wd]; b; b &= b - 1) { int v = (int)(wd * 64 + __builtin_ctzll(b)); if (axDone.insert(v).second) { for (E a : varById(v)->axioms) { if (have.insert(a).second) cs.push_back(a); orIn(S, *a->sup); ch = true; } } }
    }
    std::vector<uint32_t> key; for (E c : cs) key.push_back(c->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    std::vector<int> vars; bool hr = false, hb = false, hf = false;
    for (size_t wd = 0; wd < S.size(); ++wd) for (uint64_t b = S[wd]; b; b &= b - 1) { int v = (int)(wd * 64 + __builtin_ctzll(b)); vars.push_back(v); Sort s = varExpr(v)->sort; (s == SReal ? hr : s == SBV ? hb : hf) = true; }
    auto it = qcache.find(key);
    if (it != qcache.end() && it->second.first != Res::Unknown) { ++g_ss.cached; if (it->second.first == Res::Sat) { auto m = base ? std::make_shared<Model>(*base) : std::make_shared<Model>(); for (int v : vars) { auto k = it->second.second->v.find(v); if (k != it->second.second->v.end()) m->v[v] = k->second; } out = m; } return it->second.first; }
    if (it != qcache.end()) { auto k = qtmo.find(key); if (k != qtmo.end() && k->second >= tmo) { ++g_ss.cached; return Res::Unknown; } }
    double t0 = nowS(); std::shared_ptr<Model> m; int r;
    if (hf) { r = solverTry(nullptr, cs, tmo, vars, m, base); }
    else if (hr && !hb) { r = solverTry("QF_NRA", cs, tmo, vars, m, base); if (r < 0) r = solverTry(nullptr, cs, tmo / 2, vars, m, base); }
    else if (hr) r = solverTry(nullptr, cs, tmo, vars, m, base);
    else { r = solverTry("QF_BV", cs, tmo, vars, m, base); }
    double dt = nowS() - t0; g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt; ++g_ss.queries;
    if (!g_dumpDir.empty() && dt > 3) { FILE* f = fopen((g_dumpDir + "/q" + std::to_string(g_ss.queries) + "_" + std::to_string((int)dt) + ".smt2").c_str(), "w"); if (f) { Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s); for (E c : cs) Z3_solver_assert(C, s, tB(c)); fputs(Z3_solver_to_string(C, s), f); fputs("(check-sat)\n", f); fclose(f); Z3_solver_dec_ref(C, s); } }
    Res res = r == 1 ? Res::Sat : r == 0 ? Res::Unsat : Res::Unknown; (r == 1 ? g_ss.sat : r == 0 ? g_ss.unsat : g_ss.unknown)++;
    if (res == Res::Sat) out = m;
    qcache[key] = {res, m}; if (res == Res::Unknown) qtmo[key] = tmo; return res;
}
