#include "exec_core.h"
#include <algorithm>
#include <cmath>
typedef std::vector<Val> A;
#define BI(name) static bool name(Exec& X, State& s, const Inst& I, A& a, Val& r)
int typeId(uint64_t ti);
static std::unordered_map<std::string, Builtin> tab; static std::vector<std::pair<std::string, Builtin>> prefixes; static std::set<std::string> overrides;
static Val D(double d) { return Val::C(dBits(d)); }
BI(nop) { r = Val::C(0); return true; }
BI(identity) { r = a[0]; return true; }
// ---- heap
BI(b_malloc) { uint64_t n = X.conc(s, a[0], 64); r = Val::C(mkAddr(X.alloc(s, n, OHeap))); return true; }
BI(b_calloc) { uint64_t n = X.conc(s, a[0], 64) * X.conc(s, a[1], 64); r = Val::C(mkAddr(X.alloc(s, n, OHeap, true))); return true; }
BI(b_free) { uint64_t p = X.conc(s, a[0], 64); r = Val::C(0); if (!p) return true; uint32_t id = (uint32_t)(p >> 32); const Obj* o = X.rd(s, id); if (!o || (o->kind != OHeap && !o->dead)) X.violation(s, "memory", "free of a non-heap pointer at " + X.where(s), nullptr); if (o->dead) X.violation(s, "memory", "double free at " + X.where(s), nullptr); if (p != mkAddr(id)) X.violation(s, "memory", "free of an interior pointer at " + X.where(s), nullptr); X.freeObj(s, id); return true; }
BI(b_realloc) { uint64_t p = X.conc(s, a[0], 64), n = X.conc(s, a[1], 64); uint32_t id = X.alloc(s, n, OHeap); if (p) { const Obj* o = X.rd(s, (uint32_t)(p >> 32)); X.copyMem(s, mkAddr(id), p, std::min<uint64_t>(n, o->size)); X.freeObj(s, (uint32_t)(p >> 32)); } r = Val::C(mkAddr(id)); return true; }
BI(b_memalign) { uint64_t n = X.conc(s, a[1], 64); r = Val::C(mkAddr(X.alloc(s, n, OHeap))); return true; }
BI(b_memcpy) { uint64_t d = X.conc(s, a[0], 64), p = X.conc(s, a[1], 64), n = X.conc(s, a[2], I.argTy[2]->bits); X.copyMem(s, d, p, n); r = a[0]; return true; }
BI(b_memset) { uint64_t d = X.conc(s, a[0], 64), n = X.conc(s, a[2], I.argTy[2]->bits); Val b = a[1]; if (b.k == KE) b = X.fromE(mkExtract(X.toBV(s, b, I.argTy[1]->bits), 0, 8)); else if (b.k == KC) b.c &= 255; X.setMem(s, d, b, n); r = a[0]; return true; }
BI(b_memcmp) {
    uint64_t p = X.conc(s, a[0], 64), q = X.conc(s, a[1], 64), n = X.conc(s, a[2], 64); r = Val::C(0); std::vector<std::pair<E, E>> v; bool conc = true; int cr = 0;
    for (uint64_t i = 0; i < n; ++i) { Val x = X.loadN(s, p + i, 1), y = X.loadN(s, q + i, 1); if (x.k == KU) x = Val::C(0); if (y.k == KU) y = Val::C(0); if (x.k == KC && y.k == KC) { if (x.c != y.c) { if (conc) { r = Val::C((uint32_t)(x.c < y.c ? -1 : 1)); return true; } v.push_back({mkC(8, x.c), mkC(8, y.c)}); break; } continue; } conc = false; v.push_back({X.toBV(s, x, 8), X.toBV(s, y, 8)}); }
    if (v.empty()) return true; E e = mkC(32, 0); for (size_t i = v.size(); i-- > 0;) e = mkIte(mkEq(v[i].first, v[i].second), e, mkIte(mkBin(Op::Ult, v[i].first, v[i].second), mkC(32, (uint32_t)-1), mkC(32, 1))); r = X.fromE(e); return true;
}
BI(b_bcmp) {
    uint64_t p = X.conc(s, a[0], 64), q = X.conc(s, a[1], 64), n = X.conc(s, a[2], 64); E eq = mkTrue();
    for (uint64_t i = 0; i < n; ++i) { Val x = X.loadN(s, p + i, 1), y = X.loadN(s, q + i, 1); if (x.k == KC && y.k == KC) { if (x.c != y.c) { r = Val::C(1); return true; } continue; } if (x.k == KU || y.k == KU) continue; eq = mkAnd1(eq, mkEq(X.toBV(s, x, 8), X.toBV(s, y, 8))); }
    r = X.fromE(mkZExt(mkNot(eq), 32)); return true;
}
BI(b_strlen) { uint64_t p = X.conc(s, a[0], 64), n = 0; for (;;) { Val v = X.loadN(s, p + n, 1); if (v.k == KC) { if (!v.c) break; } else if (v.k == KE && X.decide(s, mkEq(X.toBV(s, v, 8), mkC(8, 0)))) break; ++n; } r = Val::C(n); return true; }
BI(b_memchr) { uint64_t p = X.conc(s, a[0], 64), n = X.conc(s, a[2], 64); E c = mkExtract(X.toBV(s, a[1], 32), 0, 8); for (uint64_t i = 0; i < n; ++i) { E b = X.toBV(s, X.loadN(s, p + i, 1), 8); if (X.decide(s, mkEq(b, c))) { r = Val::C(p + i); return true; } } r = Val::C(0); return true; }
// ---- harness API
static std::string uniq(State& s, const std::string& n) { int k = s.nameCount[n]++; return k ? n + "#" + std::to_string(k) : n; }
static std::map<std::string, int> seenChoice;
BI(sym_i64) {
    std::string n = X.cstr(s, a[0].c); int64_t lo = (int64_t)X.conc(s, a[1], 64), hi = (int64_t)X.conc(s, a[2], 64); uint64_t range = (uint64_t)hi - (uint64_t)lo; int w = range ? 64 - __builtin_clzll(range) : 1; std::string u = uniq(s, n); VarInfo* vi; E v = mkVar(w, u + "@" + std::to_string(w) + (w <= 6 ? "." + std::to_string(range) : ""), &vi); if (w <= 6) vi->bound = range; E e = w == 64 ? v : mkZExt(v, 64);
    if (w < 64 && range != maskw(w)) { X.assume(s, mkBin(Op::Ule, v, mkC(w, range))); } e = mkBin(Op::Add, e, mkC(64, (uint64_t)lo)); s.inputs.push_back({u, e}); r = X.fromE(e); return true;
}
BI(sym_choice) { std::string n = X.cstr(s, a[0].c); int64_t cnt = (int64_t)sx(X.conc(s, a[1], 32), 32); int w = 32; std::string base = n; int k = s.nameCount[n]; std::string u = k ? n + "#" + std::to_string(k) : n; int bw = cnt > 1 ? 64 - __builtin_clzll((uint64_t)cnt - 1) : 1; E v = mkVar(bw, u + "@c" + std::to_string(bw)); if ((uint64_t)cnt - 1 != maskw(bw)) X.assume(s, mkBin(Op::Ule, v, mkC(bw, (uint64_t)cnt - 1))); if (X.shardN > 1 && s.inputs.empty()) { E in = mkFalse(); for (int64_t q = X.shardI; q < cnt; q += X.shardN) in = mkOr1(in, mkEq(v, mkC(bw, (uint64_t)q))); X.assume(s, in); } Val vv; vv.k = KE; vv.e = v; uint64_t c = X.conc(s, vv, bw); s.nameCount[n]++; s.inputs.push_back({u, mkZExt(v, 64)}); r = Val::C(c); return true; }
BI(sym_f64) { std::string u = uniq(s, X.cstr(s, a[0].c)); E v = X.mode == 1 ? mkFVar(u) : mkRVar(u); s.inputs.push_back({u, v}); Val x; x.k = KE; x.e = v; r = x; return true; }
BI(sym_assume_) { Val c = a[0]; if (c.k == KC) { if (!(c.c & 1)) throw PathEnd{1, "assume"}; return true; } if (c.k == KU) fail("assume on undefined"); X.assume(s, X.toBV(s, c, 1)); return true; }
static void doAssert(Exec& X, State& s, E c, const std::string& msg) {
    AssertStat& st = X.asserts[msg]; ++st.checked; if (c->op == Op::Const) { if (c->aux) { ++st.discharged; ++st.constTrue; return; } if (X.candMsgs.count(msg)) throw PathEnd{3, msg}; bool sat; if (X.tryCandidate(s, "assert", msg, nullptr, sat)) { X.candMsgs.insert(msg); ++st.violated; throw PathEnd{3, msg}; } if (!sat) throw PathEnd{1, "infeasible"}; ++st.unknown; throw PathEnd{2, "unconfirmed assert: " + msg}; }
    E nc = mkNot(c); for (E p : s.path) { if (p == c) { ++st.discharged; return; } }
    if (X.candMsgs.count(msg)) { X.assume(s, c); return; }
    ModelP m; Res r = solve(s.path, nc, s.model, m, X.tmoAssert); if (r == Res::Unsat) { ++st.discharged; return; }
    if (r == Res::Unknown) { ++st.unknown; ++X.errors["undecided assertion: " + msg]; bool sat; if (X.spurious["assert:" + msg] < 2) { bool anyReal = false; for (auto& in : s.inputs) if (in.second->sort == SReal) anyReal = true; if (anyReal && X.tryCandidate(s, "assert", msg, nc, sat)) { X.candMsgs.insert(msg); ++st.violated; } } return; }
    bool sat; if (X.tryCandidate(s, "assert", msg, nc, sat)) { X.candMsgs.insert(msg); ++st.violated; X.assume(s, c); return; }
    if (!sat) { ++st.discharged; return; } ++st.unknown; ++X.errors["unconfirmed counterexample: " + msg]; X.assume(s, c);
}
BI(sym_assert_) { std::string msg = X.cstr(s, a[1].c); Val c = a[0]; if (c.k == KU) { X.violation(s, "uninit", "assertion depends on uninitialised value: " + msg, nullptr); } doAssert(X, s, X.toBV(s, c, 1), msg); return true; }
BI(sym_assert_close) { // |a-b| <= tol
    std::string msg = X.cstr(s, a[3].c); if (a[0].k == KU || a[1].k == KU) X.violation(s, "uninit", "assertion depends on uninitialised value: " + msg, nullptr); double tol = X.cd(a[2]);
    if (X.isConcD(a[0]) && X.isConcD(a[1])) { double x = X.cd(a[0]), y = X.cd(a[1]); bool ok = x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= tol * (1 + std::fabs(x) + std::fabs(y)); doAssert(X, s, mkC(1, ok), msg); return true; }
    for (int i = 0; i < 2; ++i) if (a[i].k == KC && !std::isfinite(bitsD(a[i].c))) { doAssert(X, s, mkFalse(), msg); return true; }
    if (X.mode == 1) { E x = X.toFP(s, a[0]), y = X.toFP(s, a[1]); E c = mkOr1(mkFOp(Op::FEq, 1, SBV, x, y), mkAnd1(mkFOp(Op::FIsNan, 1, SBV, x), mkFOp(Op::FIsNan, 1, SBV, y))); doAssert(X, s, c, msg); return true; }
    if ((a[0].k == KX || X.isConcD(a[0])) && (a[1].k == KX || X.isConcD(a[1]))) { Val d = X.fpbin(s, OpFSub, a[0], a[1]); if (d.k == KX) { FX* f = d.x; mpq_class t(tol); t += f->err; if (t < mpq_class(1, 1000000000)) t = mpq_class(1, 1000000000); mpq_class z = t * (long)f->den; mpz_class zi = z.get_num() / z.get_den(); int64_t zz = zi.get_si(); E c = mkAnd1(mkBin(Op::Sle, mkC(64, (uint64_t)-zz), f->num), mkBin(Op::Sle, f->num, mkC(64, (uint64_t)zz))); doAssert(X, s, c, msg); return true; } if (X.isConcD(d)) { doAssert(X, s, mkC(1, std::fabs(X.cd(d)) <= tol), msg); return true; } }
    E x = X.toReal(s, a[0]), y = X.toReal(s, a[1]); E d = mkRSub(x, y); if (nfIsZero(d) == 1) d = mkR(0);
    mpq_class t(tol > 0 ? tol : 0); E c; if (t == 0) c = mkRCmp(Op::REq, d, mkR(0)); else c = mkAnd1(mkRCmp(Op::RLe, mkR(-t), d), mkRCmp(Op::RLe, d, mkR(t))); doAssert(X, s, c, msg); return true;
}
BI(sym_reach_) { ++X.reached[X.cstr(s, a[0].c)]; return true; }
BI(sym_concrete) { r = Val::C(X.conc(s, a[0], 64)); return true; }
BI(sym_is_symbolic_d) { r = Val::C(X.isSym(a[0]) ? 1 : 0); return true; }
BI(sym_note) { if (X.verbose) { std::string m = X.cstr(s, a[0].c); std::string v = a[1].k == KC ? std::to_string(bitsD(a[1].c)) : a[1].k == KQ ? std::to_string(a[1].q->d) : a[1].k == KE ? show(a[1].e, 8) : a[1].k == KX ? "fx " + show(a[1].x->num, 12) + "/" + std::to_string(a[1].x->den) : "?"; fprintf(stderr, "note %s = %s\n", m.c_str(), v.c_str()); } return true; }
// ---- exceptions
BI(cxa_alloc) { uint64_t n = X.conc(s, a[0], 64); r = Val::C(mkAddr(X.alloc(s, n, OHeap))); return true; }
BI(cxa_free) { r = Val::C(0); return true; }
BI(cxa_throw) { uint64_t o = a[0].c; s.exc[o] = ExcRec{o, a[1].c, 0, o, 0, false}; Thread& t = s.th[s.cur]; t.curExc = o; t.uncaught++; X.doThrow(s); return false; }
BI(cxa_begin) { Thread& t = s.th[s.cur]; uint64_t o = a[0].c; auto& er = s.exc[o]; t.caught.push_back(o); if (t.uncaught > 0) t.uncaught--; r = Val::C(er.adj ? er.adj : o); return true; }
BI(cxa_end) { Thread& t = s.th[s.cur]; if (!t.caught.empty()) t.caught.pop_back(); return true; }
BI(cxa_rethrow) { Thread& t = s.th[s.cur]; if (t.caught.empty()) X.violation(s, "terminate", "rethrow without exception at " + X.where(s), nullptr); t.curExc = t.caught.back(); t.uncaught++; X.doThrow(s); return false; }
BI(cxa_getptr) { r = a[0]; return true; }
BI(b_uncaught) { r = Val::C((uint64_t)s.th[s.cur].uncaught); return true; }
BI(b_curexc) { Thread& t = s.th[s.cur]; r = Val::C(t.caught.empty() ? 0 : t.caught.back()); return true; }
BI(b_rethrowptr) { Thread& t = s.th[s.cur]; t.curExc = a[0].c; t.uncaught++; X.doThrow(s); return false; }
BI(eh_typeid) { r = Val::C((uint64_t)typeId(a[0].c)); return true; }
BI(b_terminate) { X.violation(s, "terminate", "std::terminate/abort called at " + X.where(s), nullptr); return false; }
BI(b_assertfail) { X.violation(s, "assert-lib", "library assertion failed at " + X.where(s), nullptr); return false; }
BI(b_exit) { throw PathEnd{0, "exit"}; }
BI(b_dyncast) { // void* src, type* from, type* to, ptrdiff hint
    uint64_t p = X.conc(s, a[0], 64); uint64_t to = a[2].c; r = Val::C(0); if (!p) return true; uint64_t vp = X.loadN(s, p, 8).c; int64_t top = (int64_t)X.loadN(s, vp - 16, 8).c; uint64_t ti = X.loadN(s, vp - 8, 8).c; uint64_t whole = p + top; uint64_t adj = whole; if (X.typeMatch(s, ti, to, adj)) r = Val::C(adj); return true; }
// ---- misc runtime
BI(b_guard_acq) { uint64_t p = a[0].c; Val v = X.loadN(s, p, 1); if (v.k == KC && v.c) { r = Val::C(0); return true; } r = Val::C(1); return true; }
BI(b_guard_rel) { X.storeN(s, a[0].c, 1, Val::C(1)); return true; }
BI(b_one) { r = Val::C(1); return true; }
BI(b_minus1) { r = Val::C(0xffffffffu); return true; }
// ---- varargs
BI(va_start) { Frame& f = s.th[s.cur].fr.back(); uint64_t p = a[0].c; X.storeN(s, p, 4, Val::C(48)); X.storeN(s, p + 4, 4, Val::C(176)); X.storeN(s, p + 8, 8, Val::C(mkAddr(f.vaObj))); X.storeN(s, p + 16, 8, Val::C(0)); return true; }
BI(va_copy) { X.copyMem(s, a[0].c, a[1].c, 24); return true; }
typedef std::vector<Val> VStr;
static void vadd(VStr& o, const std::string& t) { for (char c : t) o.push_back(Val::C((uint8_t)c)); }
// a symbolic integer: decide sign and number of digits, keep the digits symbolic
static void symInt(Exec& X, State& s, VStr& out, E v, const std::string& spec, bool sgn) {
    int w = v->w; bool neg = false; E x = w < 64 ? (sgn ? mkSExt(v, 64) : mkZExt(v, 64)) : v; if (sgn && x->smin < 0 && X.decide(s, mkBin(Op::Slt, x, mkC(64, 0)))) { neg = true; x = mkBin(Op::Sub, mkC(64, 0), x); }
    bool zero = spec.size() > 1 && spec[1] == '0', left = spec.find('-') != std::string::npos; size_t width = 0; for (char c : spec) { if (c == '.') break; if (isdigit(c)) width = width * 10 + (c - '0'); }
    if (spec.find('.') != std::string::npos || spec.find('+') != std::string::npos || spec.find(' ') != std::string::npos) fail("symbolic integer with format " + spec);
    size_t nd = 1; uint64_t p10 = 10; if (zero && !neg && width && width < 18) { uint64_t lim = 1; for (size_t i = 0; i < width; ++i) lim *= 10; if (X.decide(s, mkBin(Op::Ult, x, mkC(64, lim)))) { nd = width; } else { nd = width + 1; p10 = lim * 10; } }
    if (!(zero && !neg && width && nd == width)) while (nd < 19 && !X.decide(s, mkBin(Op::Ult, x, mkC(64, p10)))) { ++nd; p10 *= 10; }
    size_t len = nd + neg; if (!zero && !left) for (size_t i = len; i < width; ++i) out.push_back(Val::C(' ')); if (neg) out.push_back(Val::C('-')); if (zero && !left) for (size_t i = len; i < width; ++i) out.push_back(Val::C('0'));
    uint64_t d = 1; for (size_t i = 1; i < nd; ++i) d *= 10; for (size_t i = 0; i < nd; ++i, d /= 10) { E q = mkBin(Op::URem, mkBin(Op::UDiv, x, mkC(64, d)), mkC(64, 10)); out.push_back(X.fromE(mkExtract(mkBin(Op::Add, q, mkC(64, '0')), 0, 8))); }
    if (left) for (size_t i = len; i < width; ++i) out.push_back(Val::C(' '));
}
// The text of a symbolic real is an opaque numeric-looking token; strtod of the token gives the number back: exactly at 17 significant digits or more
// (IEEE doubles), otherwise some number within half a unit of the last digit printed.
static Val rvB(E e) { Val v; v.k = KE; v.e = e; return v; }
struct NumTok { E x; char conv; int prec; E y = nullptr; }; static std::vector<NumTok> numToks; static std::map<std::string, int> numTokIds;
static std::string numText(Exec& X, State& s, const Val& v, char conv, const std::string& spec) {
    if (X.mode == 1 || v.k == KU) return "?"; int prec = 6; size_t d = spec.find('.'); if (d != std::string::npos) prec = atoi(spec.c_str() + d + 1); E x = X.toReal(s, v); std::string key = std::to_string(x->id) + conv + std::to_string(prec);
    auto it = numTokIds.find(key); int id; if (it != numTokIds.end()) id = it->second; else { id = (int)numToks.size(); numToks.push_back({x, conv, prec}); numTokIds[key] = id; } char b[40]; snprintf(b, sizeof b, "8888.%06d8888", id); return b; }
static bool numTok(Exec& X, State& s, const std::string& t, Val& out) {
    if (t.size() < 15 || t.compare(0, 5, "8888.") || t.compare(11, 4, "8888")) return false; for (int i = 5; i < 11; ++i) if (!isdigit((unsigned char)t[i])) return false; size_t id = (size_t)atoi(t.substr(5, 6).c_str()); if (id >= numToks.size()) return false; NumTok& k = numToks[id];
    if ((k.conv == 'g' && k.prec >= 17) || (k.conv == 'e' && k.prec >= 16)) { out = rvB(k.x); return true; }
    if (!k.y) { VarInfo* vi; k.y = mkRVar("text!" + std::to_string(id), &vi); mpq_class tol(1, 2); for (int i = 0; i < (k.conv == 'f' ? k.prec : k.prec - (k.conv == 'g')); ++i) tol /= 10; E dd = mkRSub(k.y, k.x), m = mkR(1);
        if (k.conv != 'f') m = mkRMul(k.x, k.x), dd = mkRMul(dd, dd), tol = tol * tol; E hi = mkRMul(mkR(tol), m); vi->axioms.push_back(mkRCmp(Op::RLe, dd, hi)); if (k.conv == 'f') vi->axioms.push_back(mkRCmp(Op::RLe, mkRSub(mkR(0), hi), dd)); }
    ModelP mm; Res r2 = solve(s.path, mkRCmp(Op::RLe, k.y, k.y), s.model, mm, X.tmoBranch); if (r2 == Res::Sat) s.model = mm; out = rvB(k.y); return true; }
static VStr fmt(Exec& X, State& s, const std::string& f, std::function<Val()> next) {
    VStr out; for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] != '%') { out.push_back(Val::C((uint8_t)f[i])); continue; } size_t j = i + 1; std::string spec = "%"; std::string flags; while (j < f.size() && strchr("-+ #0123456789.*lhzjt", f[j])) { if (f[j] == '*') { spec += std::to_string((int)next().c); } else if (!strchr("lhzjt", f[j])) spec += f[j]; flags += f[j]; ++j; }
        char c = f[j]; char buf[512]; if (c == '%') out.push_back(Val::C('%')); else {
            Val v = next(); bool lng = flags.find('l') != std::string::npos || flags.find('z') != std::string::npos || flags.find('j') != std::string::npos;
            if (c == 's') { if (spec == "%") { for (uint64_t q = v.c;; ++q) { Val ch = X.loadN(s, q, 1); if (ch.k == KC) { if (!ch.c) break; } else if (X.decide(s, mkEq(X.toBV(s, ch, 8), mkC(8, 0)))) break; out.push_back(ch); } } else { std::string x = X.cstr(s, v.c); snprintf(buf, sizeof buf, (spec + "s").c_str(), x.c_str()); vadd(out, buf); } }
            else if (v.k == KE || v.k == KX || v.k == KU) { if ((c == 'd' || c == 'i' || c == 'u') && v.k == KE && v.e->sort == SBV) { E e = v.e; if (!lng && e->w > 32) e = mkExtract(e, 0, 32); symInt(X, s, out, e, spec, c != 'u'); } else if (strchr("fgeEGF", c) && (v.k == KX || v.e->sort == SReal)) vadd(out, numText(X, s, v, (char)tolower(c), spec)); else vadd(out, "?"); }
            else if (strchr("di", c)) { snprintf(buf, sizeof buf, (spec + "lld").c_str(), (long long)(lng ? (int64_t)v.c : (int64_t)(int32_t)v.c)); vadd(out, buf); } else if (strchr("uxXo", c)) { snprintf(buf, sizeof buf, (spec + "ll" + c).c_str(), (unsigned long long)(lng ? v.c : (uint32_t)v.c)); vadd(out, buf); }
            else if (c == 'c') { out.push_back(Val::C((uint8_t)v.c)); } else if (strchr("fgeEGaF", c)) { snprintf(buf, sizeof buf, (spec + c).c_str(), X.cd(v)); vadd(out, buf); } else if (c == 'p') { snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)v.c); vadd(out, buf); } else vadd(out, "?"); }
        i = j; } return out; }
static void putStr(Exec& X, State& s, uint64_t dst, uint64_t n, const VStr& t) { if (!n) return; uint64_t k = std::min<uint64_t>(n - 1, t.size()); for (uint64_t i = 0; i < k; ++i) X.storeN(s, dst + i, 1, t[i]); X.storeN(s, dst + k, 1, Val::C(0)); }
BI(b_snprintf) { size_t k = 3; std::string f = X.cstr(s, a[2].c); VStr t = fmt(X, s, f, [&]() { return k < a.size() ? a[k++] : Val::C(0); }); putStr(X, s, a[0].c, X.conc(s, a[1], 64), t); r = Val::C((uint32_t)t.size()); return true; }
BI(b_sprintf) { size_t k = 2; std::string f = X.cstr(s, a[1].c); VStr t = fmt(X, s, f, [&]() { return k < a.size() ? a[k++] : Val::C(0); }); putStr(X, s, a[0].c, t.size() + 1, t); r = Val::C((uint32_t)t.size()); return true; }
BI(b_vsnprintf) { uint64_t ap = a[3].c; std::string f = X.cstr(s, a[2].c); VStr t = fmt(X, s, f, [&]() { uint64_t p = X.loadN(s, ap + 8, 8).c; Val v = X.loadN(s, p, 8); X.storeN(s, ap + 8, 8, Val::C(p + 8)); return v; }); putStr(X, s, a[0].c, X.conc(s, a[1], 64), t); r = Val::C((uint32_t)t.size()); return true; }
BI(fmt_double) { // int __sym_fmt_double(char* buf, double v, int prec, int kind)
    std::string t; if (X.isSym(a[1]) || a[1].k == KU) t = "?"; else { char b[400]; int p = (int)a[2].c; int kind = (int)a[3].c; snprintf(b, sizeof b, kind == 1 ? "%.*f" : kind == 2 ? "%.*e" : "%.*g", p, X.cd(a[1])); t = b; } VStr vt; vadd(vt, t); putStr(X, s, a[0].c, 400, vt); r = Val::C((uint32_t)t.size()); return true; }
BI(b_strtod) { uint64_t p = X.conc(s, a[0], 64), q = p; std::string t; for (;; ++q) { Val v = X.loadN(s, q, 1); uint64_t c = v.k == KC ? v.c : X.conc(s, v, 8); if (!c) break; t += (char)c; if (t.size() > 300) break; } { Val nv; if (numTok(X, s, t, nv)) { size_t n = 15; if (t.compare(n, 2, ".0") == 0) n += 0; if (a[1].k != KC || a[1].c) X.storeN(s, a[1].c, 8, Val::C(p + n)); r = nv; return true; } } char* e; double d = strtod(t.c_str(), &e); if (a[1].k != KC || a[1].c) X.storeN(s, a[1].c, 8, Val::C(p + (e - t.c_str()))); r = D(d); return true; }
BI(b_strtol) { uint64_t p = X.conc(s, a[0], 64), q = p; std::string t; for (;; ++q) { Val v = X.loadN(s, q, 1); uint64_t c = v.k == KC ? v.c : X.conc(s, v, 8); if (!c) break; t += (char)c; if (t.size() > 300) break; } char* e; long d = strtol(t.c_str(), &e, (int)X.conc(s, a[2], 32)); if (a[1].c) X.storeN(s, a[1].c, 8, Val::C(p + (e - t.c_str()))); r = Val::C((uint64_t)d); return true; }
static uint32_t errnoId(Exec& X, State& s) { auto it = s.kv.find("errno"); if (it != s.kv.end()) return (uint32_t)it->second; uint32_t id = X.alloc(s, 8, OGlobal, true); s.kv["errno"] = id; return id; }
BI(b_errno) { r = Val::C(mkAddr(errnoId(X, s))); return true; }
// ---- math
static bool conc1(Exec& X, const Val& v) { return X.isConcD(v); }
#define M1(nm, fn) BI(m_##nm) { if (a[0].k == KU) { r = a[0]; return true; } if (!conc1(X, a[0])) fail("symbolic " #nm); r = D(fn(X.cd(a[0]))); return true; }
M1(tan, std::tan) M1(atan, std::atan) M1(asin, std::asin) M1(acos, std::acos) M1(cbrt, std::cbrt) M1(tgamma, std::tgamma) M1(lgamma, std::lgamma) M1(log2, std::log2) M1(log10, std::log10)
#define MU(nm, fn, kind) BI(m_##nm) { if (a[0].k == KU || conc1(X, a[0])) { r = a[0].k == KU ? a[0] : D(fn(X.cd(a[0]))); return true; } if (X.mode == 1) { if (kind == UfSqrt) { Val v; v.k = KE; v.e = mkFOp(Op::FSqrt, 0, SFP, X.toFP(s, a[0])); r = v; return true; } fail("ieee " #nm); } r = X.fpUf(s, kind, #nm, a[0]); return true; }
static Val sqrtExact(Exec& X, const Val& v);
MU(sqrt, std::sqrt, UfSqrt) MU(exp, std::exp, UfExp) MU(log, std::log, UfLog) MU(erfc, std::erfc, UfErfc) MU(sin, std::sin, UfSin) MU(cos, std::cos, UfCos)
// hyperbolics through exp, log and sqrt
static void expPair(Exec& X, State& s, const Val& x, Val& p, Val& q) { p = X.fpUf(s, UfExp, "exp", x); q = X.fpbin(s, OpFDiv, D(1.0), p); }
#define MH(nm, fn, body) BI(m_##nm) { if (a[0].k == KU || conc1(X, a[0])) { r = a[0].k == KU ? a[0] : D(fn(X.cd(a[0]))); return true; } if (X.mode == 1) fail("ieee " #nm); Val p, q; body; return true; }
MH(sinh, std::sinh, expPair(X, s, a[0], p, q); r = X.fpbin(s, OpFMul, D(0.5), X.fpbin(s, OpFSub, p, q)))
MH(cosh, std::cosh, expPair(X, s, a[0], p, q); r = X.fpbin(s, OpFMul, D(0.5), X.fpbin(s, OpFAdd, p, q)))
MH(tanh, std::tanh, expPair(X, s, a[0], p, q); r = X.fpbin(s, OpFDiv, X.fpbin(s, OpFSub, p, q), X.fpbin(s, OpFAdd, p, q)))
MH(asinh, std::asinh, p = X.fpUf(s, UfSqrt, "sqrt", X.fpbin(s, OpFAdd, X.fpbin(s, OpFMul, a[0], a[0]), D(1.0))); q = X.fpbin(s, OpFAdd, a[0], p); r = X.fpUf(s, UfLog, "log", q))
BI(m_erf) { if (a[0].k == KU || conc1(X, a[0])) { r = a[0].k == KU ? a[0] : D(std::erf(X.cd(a[0]))); return true; } Val c = X.fpUf(s, UfErfc, "erfc", a[0]); r = X.fpbin(s, OpFSub, D(1.0), c); return true; }
BI(m_log1p) { if (conc1(X, a[0])) { r = D(std::log1p(X.cd(a[0]))); return true; } Val x = X.fpbin(s, OpFAdd, a[0], D(1.0)); r = X.fpUf(s, UfLog, "log", x); return true; }
BI(m_expm1) { if (conc1(X, a[0])) { r = D(std::expm1(X.cd(a[0]))); return true; } Val x = X.fpUf(s, UfExp, "exp", a[0]); r = X.fpbin(s, OpFSub, x, D(1.0)); return true; }
BI(m_pow) {
    if (a[0].k == KU || a[1].k == KU) { r = Val(); return true; } if (conc1(X, a[0]) && conc1(X, a[1])) { r = D(std::pow(X.cd(a[0]), X.cd(a[1]))); return true; }
    if (X.mode == 1) fail("ieee pow");
    if (conc1(X, a[1])) { double e = X.cd(a[1]); if (e == std::floor(e) && std::fabs(e) <= 16) { int n = (int)std::fabs(e); Val acc = D(1.0); for (int i = 0; i < n; ++i) acc = X.fpbin(s, OpFMul, acc, a[0]); if (e < 0) acc = X.fpbin(s, OpFDiv, D(1.0), acc); r = acc; return true; } if (e == 0.5) { r = X.fpUf(s, UfSqrt, "sqrt", a[0]); return true; } }
    E x = X.toReal(s, a[0]); if (X.decide(s, mkRCmp(Op::REq, x, mkR(0)))) { E y = X.toReal(s, a[1]); if (X.decide(s, mkRCmp(Op::RLt, mkR(0), y))) r = D(0.0); else if (X.decide(s, mkRCmp(Op::REq, mkR(0), y))) r = D(1.0); else r = D(INFINITY); return true; }
    if (X.decide(s, mkRCmp(Op::RLt, x, mkR(0)))) { fail("pow of a negative symbolic base"); }
    Val l = X.isConcD(a[0]) ? D(std::log(X.cd(a[0]))) : X.fpUf(s, UfLog, "log", a[0]); Val p = X.fpbin(s, OpFMul, a[1], l); r = X.isConcD(p) ? D(std::exp(X.cd(p))) : X.fpUf(s, UfExp, "exp", p); return true; }
BI(m_atan2) { if (!conc1(X, a[0]) || !conc1(X, a[1])) fail("symbolic atan2"); r = D(std::atan2(X.cd(a[0]), X.cd(a[1]))); return true; }
BI(m_hypot) { if (!conc1(X, a[0]) || !conc1(X, a[1])) fail("symbolic hypot"); r = D(std::hypot(X.cd(a[0]), X.cd(a[1]))); return true; }
BI(m_fmod) { r = X.fpbin(s, OpFRem, a[0], a[1]); return true; }
BI(m_fabs) { if (I.ty->kind == TVector) { Agg* g = new Agg; for (auto& x : a[0].a->v) g->v.push_back(X.fpabs(s, x)); r.k = KA; r.a = g; return true; } r = X.fpabs(s, a[0]); return true; }
BI(m_floor) { r = X.fpRound(s, a[0], 0); return true; } BI(m_ceil) { r = X.fpRound(s, a[0], 1); return true; } BI(m_trunc) { r = X.fpRound(s, a[0], 2); return true; } BI(m_rint) { r = X.fpRound(s, a[0], 3); return true; } BI(m_round) { r = X.fpRound(s, a[0], 4); return true; }
BI(m_lround) { Val v = X.fpRound(s, a[0], 4); r = X.fpToInt(s, v, 64, true); return true; }
BI(m_fma) { if (a[0].k == KU) { r = a[0]; return true; } if (conc1(X, a[0]) && conc1(X, a[1]) && conc1(X, a[2]) && X.mode == 1) { r = D(std::fma(X.cd(a[0]), X.cd(a[1]), X.cd(a[2]))); return true; } r = X.fpbin(s, OpFAdd, X.fpbin(s, OpFMul, a[0], a[1]), a[2]); return true; }
BI(m_minnum) { Val c = X.fpcmp(s, 4, a[0], a[1]); int b = c.k == KC ? (int)c.c : X.decide(s, X.toBV(s, c, 1)); r = b ? a[0] : a[1]; return true; }
BI(m_maxnum) { Val c = X.fpcmp(s, 2, a[0], a[1]); int b = c.k == KC ? (int)c.c : X.decide(s, X.toBV(s, c, 1)); r = b ? a[0] : a[1]; return true; }
BI(m_copysign) { if (conc1(X, a[0]) && conc1(X, a[1])) { r = D(std::copysign(X.cd(a[0]), X.cd(a[1]))); return true; } Val m = X.fpabs(s, a[0]); Val c = X.fpcmp(s, 4, a[1], D(0.0)); int b = c.k == KC ? (int)c.c : X.decide(s, X.toBV(s, c, 1)); r = b ? X.fpneg(s, m) : m; return true; }
BI(m_frexp) { if (!conc1(X, a[0])) fail("symbolic frexp"); int e; double d = std::frexp(X.cd(a[0]), &e); X.storeN(s, a[1].c, 4, Val::C((uint32_t)e)); r = D(d); return true; }
BI(m_ldexp) { if (!conc1(X, a[0])) fail("symbolic ldexp"); r = D(std::ldexp(X.cd(a[0]), (int)a[1].c)); return true; }
BI(m_modf) { Val t = X.fpRound(s, a[0], 2); X.storeN(s, a[1].c, 8, t); r = X.fpbin(s, OpFSub, a[0], t); return true; }
BI(m_nextafter) { if (!conc1(X, a[0])) { r = a[0]; return true; } r = D(std::nextafter(X.cd(a[0]), X.cd(a[1]))); return true; }
BI(is_fpclass) { uint64_t mask = a[1].c; if (a[0].k == KU) { r = a[0]; return true; } if (conc1(X, a[0])) { double d = X.cd(a[0]); bool neg = std::signbit(d); int c = std::fpclassify(d); uint64_t bit = c == FP_NAN ? 3 : c == FP_INFINITE ? (neg ? 4 : 512) : c == FP_NORMAL ? (neg ? 8 : 256) : c == FP_SUBNORMAL ? (neg ? 16 : 128) : (neg ? 32 : 64); r = Val::C((mask & bit) != 0); return true; }
    if (X.mode == 1) { E x = X.toFP(s, a[0]); E c = mkFalse(); if ((mask & 3) == 3) c = mkOr1(c, mkFOp(Op::FIsNan, 1, SBV, x)); if ((mask & 0x204) == 0x204) c = mkOr1(c, mkFOp(Op::FIsInf, 1, SBV, x)); uint64_t rest = mask & ~(uint64_t)0x207; if (rest == 0x1f8) c = mkOr1(c, mkNot(mkOr1(mkFOp(Op::FIsNan, 1, SBV, x), mkFOp(Op::FIsInf, 1, SBV, x)))); else if (rest) fail("is.fpclass mask"); r = X.fromE(c); return true; }
    if (!(mask & 0x1f8)) { r = Val::C(0); return true; } if ((mask & 0x1f8) == 0x1f8) { r = Val::C(1); return true; } fail("is.fpclass on real"); }
// ---- integer intrinsics
template <class F> static Val perLane(Exec& X, const Inst& I, A& a, F f) { if (I.ty->kind == TVector) { Agg* g = new Agg; for (size_t i = 0; i < I.ty->el.size(); ++i) { Val x = a[0].a->v[i], y = a.size() > 1 && a[1].k == KA ? a[1].a->v[i] : Val(); g->v.push_back(f(x, y, (int)I.ty->el[i].second->bits)); } Val r; r.k = KA; r.a = g; return r; } return f(a[0], a.size() > 1 ? a[1] : Val(), (int)I.ty->bits); }
static Val minmax(Exec& X, State& s, const Val& x, const Val& y, int w, int pred) { if (x.k == KU || y.k == KU) return Val(); Val c = X.icmp(s, pred, x, y, w); if (c.k == KC) return c.c ? x : y; return X.fromE(mkIte(X.toBV(s, c, 1), X.toBV(s, x, w), X.toBV(s, y, w))); }
BI(i_umax) { r = perLane(X, I, a, [&](Val x, Val y, int w) { return minmax(X, s, x, y, w, 34); }); return true; } BI(i_umin) { r = perLane(X, I, a, [&](Val x, Val y, int w) { return minmax(X, s, x, y, w, 36); }); return true; }
BI(i_smax) { r = perLane(X, I, a, [&](Val x, Val y, int w) { return minmax(X, s, x, y, w, 38); }); return true; } BI(i_smin) { r = perLane(X, I, a, [&](Val x, Val y, int w) { return minmax(X, s, x, y, w, 40); }); return true; }
BI(i_abs) { int w = I.ty->bits; Val n = X.binop(s, I, OpSub, Val::C(0), a[0], w); Val c = X.icmp(s, 40, a[0], Val::C(0), w); if (c.k == KC) { r = c.c ? n : a[0]; return true; } if (c.k == KU) { r = c; return true; } r = X.fromE(mkIte(X.toBV(s, c, 1), X.toBV(s, n, w), X.toBV(s, a[0], w))); return true; }
static Val pair2(const Val& x, const Val& y) { Agg* g = new Agg; g->v.push_back(x); g->v.push_back(y); Val r; r.k = KA; r.a = g; return r; }
static bool ovf(Exec& X, State& s, const Inst& I, A& a, Val& r, int op, bool sg) {
    int w = I.ty->el[0].second->bits; Val v = X.binop(s, I, op, a[0], a[1], w); E o;
    if (a[0].k == KC && a[1].k == KC) { i128 x = sg ? (i128)sx(a[0].c, w) : (i128)(a[0].c & maskw(w)), y = sg ? (i128)sx(a[1].c, w) : (i128)(a[1].c & maskw(w)); bool ov; if (op == OpMul && !sg) { unsigned __int128 z = (unsigned __int128)x * (unsigned __int128)y; ov = z > maskw(w); } else { i128 z = op == OpAdd ? x + y : op == OpSub ? x - y : x * y; i128 lo = sg ? -((i128)1 << (w - 1)) : 0, hi = sg ? ((i128)1 << (w - 1)) - 1 : (i128)maskw(w); ov = z < lo || z > hi; } r = pair2(v, Val::C(ov)); return true; }
    E x = X.toBV(s, a[0], w), y = X.toBV(s, a[1], w), z = X.toBV(s, v, w);
    if (op == OpAdd) o = sg ? mkAnd1(mkEq(mkExtract(x, w - 1, 1), mkExtract(y, w - 1, 1)), mkNot(mkEq(mkExtract(x, w - 1, 1), mkExtract(z, w - 1, 1)))) : mkBin(Op::Ult, z, x);
    else if (op == OpSub) o = sg ? mkAnd1(mkNot(mkEq(mkExtract(x, w - 1, 1), mkExtract(y, w - 1, 1))), mkNot(mkEq(mkExtract(x, w - 1, 1), mkExtract(z, w - 1, 1)))) : mkBin(Op::Ult, x, y);
    else { if (w > 32) { i128 hi = (i128)x->umax * y->umax; if (!sg && (unsigned __int128)x->umax * y->umax <= maskw(w)) o = mkFalse(); else fail("symbolic mul overflow 64"); } else { E X2 = sg ? mkSExt(x, 2 * w) : mkZExt(x, 2 * w), Y2 = sg ? mkSExt(y, 2 * w) : mkZExt(y, 2 * w), Z = mkBin(Op::Mul, X2, Y2); o = mkNot(mkEq(Z, sg ? mkSExt(z, 2 * w) : mkZExt(z, 2 * w))); } }
    r = pair2(v, X.fromE(o)); return true; }
BI(o_uadd) { return ovf(X, s, I, a, r, OpAdd, false); } BI(o_sadd) { return ovf(X, s, I, a, r, OpAdd, true); } BI(o_usub) { return ovf(X, s, I, a, r, OpSub, false); } BI(o_ssub) { return ovf(X, s, I, a, r, OpSub, true); } BI(o_umul) { return ovf(X, s, I, a, r, OpMul, false); } BI(o_smul) { return ovf(X, s, I, a, r, OpMul, true); }
BI(i_usubsat) { int w = I.ty->bits; Val c = X.icmp(s, 36, a[0], a[1], w); Val d = X.binop(s, I, OpSub, a[0], a[1], w); if (c.k == KC) { r = c.c ? Val::C(0) : d; return true; } r = X.fromE(mkIte(X.toBV(s, c, 1), mkC(w, 0), X.toBV(s, d, w))); return true; }
BI(i_uaddsat) { int w = I.ty->bits; Val d = X.binop(s, I, OpAdd, a[0], a[1], w); Val c = X.icmp(s, 36, d, a[0], w); if (c.k == KC) { r = c.c ? Val::C(maskw(w)) : d; return true; } r = X.fromE(mkIte(X.toBV(s, c, 1), mkC(w, maskw(w)), X.toBV(s, d, w))); return true; }
BI(i_ctlz) { int w = I.ty->bits; if (a[0].k == KU) { r = a[0]; return true; } if (a[0].k == KC) { uint64_t v = a[0].c & maskw(w); r = Val::C(v ? (uint64_t)(w - (64 - __builtin_clzll(v))) : (uint64_t)w); return true; } E e = X.toBV(s, a[0], w), o = mkC(w, w); for (int i = 0; i < w; ++i) o = mkIte(mkExtract(e, i, 1), mkC(w, w - 1 - i), o); r = X.fromE(o); return true; }
BI(i_cttz) { int w = I.ty->bits; if (a[0].k == KU) { r = a[0]; return true; } if (a[0].k == KC) { uint64_t v = a[0].c & maskw(w); r = Val::C(v ? (uint64_t)__builtin_ctzll(v) : (uint64_t)w); return true; } E e = X.toBV(s, a[0], w), o = mkC(w, w); for (int i = w - 1; i >= 0; --i) o = mkIte(mkExtract(e, i, 1), mkC(w, i), o); r = X.fromE(o); return true; }
BI(i_ctpop) { int w = I.ty->bits; if (a[0].k == KC) { r = Val::C(__builtin_popcountll(a[0].c & maskw(w))); return true; } E e = X.toBV(s, a[0], w), o = mkC(w, 0); for (int i = 0; i < w; ++i) o = mkBin(Op::Add, o, mkZExt(mkExtract(e, i, 1), w)); r = X.fromE(o); return true; }
BI(i_bswap) { int w = I.ty->bits; if (a[0].k == KC) { uint64_t v = 0; for (int i = 0; i < w / 8; ++i) v |= ((a[0].c >> (8 * i)) & 255) << (w - 8 - 8 * i); r = Val::C(v); return true; } E e = X.toBV(s, a[0], w), o = nullptr; for (int i = 0; i < w / 8; ++i) { E b = mkExtract(e, 8 * i, 8); o = o ? mkConcat(o, b) : b; } r = X.fromE(o); return true; }
static bool fsh(Exec& X, State& s, const Inst& I, A& a, Val& r, bool left) { int w = I.ty->bits; if (a[2].k != KC) fail("symbolic funnel shift"); unsigned k = (unsigned)(a[2].c % w); if (a[0].k == KC && a[1].k == KC) { uint64_t m = maskw(w), h = a[0].c & m, l = a[1].c & m, v = left ? (k ? (h << k) | (l >> (w - k)) : h) : (k ? (h << (w - k)) | (l >> k) : l); r = Val::C(v & m); return true; } E h = X.toBV(s, a[0], w), l = X.toBV(s, a[1], w), W = mkC(w, k), Z = mkC(w, w - k); r = X.fromE(k == 0 ? (left ? h : l) : left ? mkBin(Op::Or, mkBin(Op::Shl, h, W), mkBin(Op::LShr, l, Z)) : mkBin(Op::Or, mkBin(Op::Shl, h, Z), mkBin(Op::LShr, l, W))); return true; }
BI(i_fshl) { return fsh(X, s, I, a, r, true); } BI(i_fshr) { return fsh(X, s, I, a, r, false); }
BI(b_assume) { return true; }
BI(b_objsize) { r = Val::C(~0ull & maskw(I.ty->bits)); return true; }
BI(b_zero) { r = Val::C(0); return true; }
BI(b_stacksave) { r = Val::C(0); return true; }
BI(b_tls) { r = a[0]; uint32_t id = (uint32_t)(a[0].c >> 32); if (s.cur == 0) return true; auto it = X.tlsInit.find(id); if (it == X.tlsInit.end()) return true; Thread& t = s.th[s.cur]; auto k = t.tls.find(id); if (k == t.tls.end()) { uint32_t n = X.alloc(s, X.tlsSize[id], OGlobal, true); LLVMValueRef in = LLVMGetInitializer(it->second); if (in) X.writeConst(X.wr(s, n), 0, in); t.tls[id] = n; r = Val::C(mkAddr(n, (int64_t)(a[0].c & 0xffffffff) - (int64_t)BASE)); return true; } r = Val::C(mkAddr(k->second, (int64_t)(a[0].c & 0xffffffff) - (int64_t)BASE)); return true; }
BI(b_vreduce_fadd) { Val acc = a[0]; for (auto& x : a[1].a->v) acc = X.fpbin(s, OpFAdd, acc, x); r = acc; return true; }
BI(b_vreduce_add) { Val acc = Val::C(0); for (auto& x : a[0].a->v) acc = X.binop(s, I, OpAdd, acc, x, I.ty->bits); r = acc; return true; }
BI(b_time) { r = Val::C(1700000000); return true; }
BI(b_write) { r = a.size() > 2 ? a[2] : Val::C(0); return true; }
// ---- threads
void Exec::acq(State& s, uint64_t m) { if (!raceOn || s.th.size() < 2) return; auto& r = s.race; if (r.vc.size() < s.th.size()) r.vc.resize(s.th.size()); auto it = r.sync.find(m); if (it != r.sync.end()) r.vc[s.cur].join(it->second); }
void Exec::rel(State& s, uint64_t m) { if (!raceOn || s.th.size() < 2) return; auto& r = s.race; if (r.vc.size() < s.th.size()) r.vc.resize(s.th.size()); ++r.vc[s.cur].c[s.cur]; r.sync[m].join(r.vc[s.cur]); }
void Exec::raceAcc(State& s, uint64_t p, unsigned n, bool wr) { // happens-before race detection, byte by byte
    if (s.th.size() < 2 || s.th.size() > 8) return; const Obj* o = rd(s, (uint32_t)(p >> 32)); if (!o || o->ro) return; if (o->kind == OGlobal && o->tag && (!strncmp(o->tag, "_ZZ", 3) || !strncmp(o->tag, "_ZGV", 4))) return;
    auto& r = s.race; if (r.vc.size() < s.th.size()) r.vc.resize(s.th.size()); VClock& me = r.vc[s.cur]; uint32_t now = me.c[s.cur] + 1; if (n > 64) n = 64;
    for (unsigned k = 0; k < n; ++k) { RCell& c = r.cells[p + k]; bool bad = c.wt >= 0 && c.wt != s.cur && c.wc > me.c[(int)c.wt]; if (wr) for (int i = 0; i < (int)s.th.size() && !bad; ++i) if (i != s.cur && c.rc[i] > me.c[i]) bad = true;
        if (bad) violation(s, "race", std::string("data race: unordered ") + (wr ? "write" : "read") + " of memory another thread accesses, at " + where(s), nullptr);
        if (wr) { c.wt = (int8_t)s.cur; c.wc = now; memset(c.rc, 0, sizeof c.rc); } else c.rc[s.cur] = now; } }
static void block(State& s, int kind, uint64_t on) { Thread& t = s.th[s.cur]; t.status = 1; t.waitOn = on; t.waitKind = kind; }
bool Exec::schedule(State& s, bool voluntary) {
    // choose the next runnable thread; alternatives become forked states constrained by a symbolic schedule variable
    std::vector<int> run; for (size_t i = 0; i < s.th.size(); ++i) if (s.th[i].status == 0) run.push_back((int)i);
    if (run.empty()) { bool mainDone = s.th[0].fr.empty(); if (mainDone) throw PathEnd{0, "done"}; s.cur = 0; violation(s, "deadlock", "deadlock: every thread is blocked (" + where(s) + ")", nullptr); }
    if (s.spurious < maxSpurious) for (size_t i = 0; i < s.th.size(); ++i) if (s.th[i].status == 1 && s.th[i].waitKind == 3 && !(voluntary && (int)i == s.cur)) run.push_back((int)i);
    std::vector<int> opts; bool curRun = s.th[s.cur].status == 0; if (!voluntary && curRun) { opts.push_back(s.cur); if (s.preempt < maxPreempt) for (int i : run) if (i != s.cur) opts.push_back(i); } else opts = run;
    auto pickT = [&](State& n, int k) { n.cur = k; if (n.th[k].status == 1) { ++n.spurious; n.th[k].status = 0; n.th[k].waitKind = 0; } };
    if (opts.size() == 1) { pickT(s, opts[0]); return true; }
    std::string u = uniq(s, "sched"); E v = mkVar(4, u); s.inputs.push_back({u, mkZExt(v, 64)}); int cur0 = s.cur;
    for (size_t k = 1; k < opts.size(); ++k) { State* n = clone(s); E c = mkEq(v, mkC(4, (uint64_t)opts[k])); addPath(*n, c); ModelP m; if (solve(n->path, nullptr, s.model, m, tmoBranch, false) == Res::Unsat) { release(n); continue; } auto mm = std::make_shared<Model>(*s.model); mm->v[v->var->id].bv = (uint64_t)opts[k]; n->model = mm; if (!voluntary && curRun) n->preempt++; pickT(*n, opts[k]); work.push_back(n); ++forks; ++forkSites["(scheduler)"]; }
    E c = mkEq(v, mkC(4, (uint64_t)opts[0])); addPath(s, c); auto mm = std::make_shared<Model>(*s.model); mm->v[v->var->id].bv = (uint64_t)opts[0]; s.model = mm; pickT(s, opts[0]); (void)cur0; return true;
}
void Exec::yieldPoint(State& s) { // fair: a thread that keeps running gives way after 60 steps; 4000 steps in all count as livelock
    if (s.th.size() < 2) return; if (++s.yields > 4000) violation(s, "nonterm", "livelock: threads keep running without finishing (" + where(s) + ")", nullptr);
    int c = s.cur; if (++s.streak > 60) { for (size_t k = 1; k < s.th.size(); ++k) { int i = (c + (int)k) % (int)s.th.size(); if (s.th[i].status == 0) { s.cur = i; s.streak = 0; return; } } }
    schedule(s, false); if (s.cur != c) s.streak = 0; }
static void finish(Exec& X, State& s, const Inst& I, const Val& r) { X.setDst(s, I, r); Frame& f = s.th[s.cur].fr.back(); if (I.op == OpInvoke) X.takeEdge(s, I.edges[0]); else ++f.pc; }
BI(th_create) { // uint64 __sym_thread_create(void(*)(void*), void*)
    Func* fn = X.rd(s, (uint32_t)(a[0].c >> 32))->fn; Thread nt; s.th.push_back(nt); int id = (int)s.th.size() - 1; if (X.raceOn) { auto& r = s.race; r.vc.resize(s.th.size()); if (id < 8) { r.vc[id] = r.vc[s.cur]; r.vc[id].join(r.vc[s.cur]); ++r.vc[s.cur].c[s.cur]; r.vc[id].c[s.cur] = r.vc[s.cur].c[s.cur]; } } int cur = s.cur; finish(X, s, I, Val::C((uint64_t)id)); s.cur = id; std::vector<Val> args{a[1]}; X.call(s, fn, args, nullptr); s.cur = cur; X.schedule(s, false); return false; }
BI(th_join) { uint64_t id = X.conc(s, a[0], 64); if (id >= s.th.size()) X.violation(s, "thread", "join of invalid thread", nullptr); if (s.th[id].status != 2) { block(s, 1, id); X.schedule(s, true); return false; } if (X.raceOn && s.race.vc.size() > std::max<size_t>(id, s.cur)) { VClock e = s.race.vc[id]; ++e.c[id]; s.race.vc[s.cur].join(e); } finish(X, s, I, Val::C(0)); X.schedule(s, false); return false; }
// mutex state is kept engine-side: owner map keyed by address
BI(th_lock) { uint64_t m = a[0].c; auto it = s.mutexOwner.find(m); if (it != s.mutexOwner.end() && it->second != -1) { if (it->second == s.cur) X.violation(s, "deadlock", "recursive lock of a mutex at " + X.where(s), nullptr); block(s, 2, m); X.schedule(s, true); return false; } s.mutexOwner[m] = s.cur; X.acq(s, m); finish(X, s, I, Val::C(0)); X.yieldPoint(s); return false; }
BI(th_trylock) { uint64_t m = a[0].c; auto it = s.mutexOwner.find(m); if (it != s.mutexOwner.end() && it->second != -1) r = Val::C(16); else { s.mutexOwner[m] = s.cur; X.acq(s, m); r = Val::C(0); } return true; }
static void wakeMutex(State& s, uint64_t m) { for (auto& t : s.th) if (t.status == 1 && t.waitKind == 2 && t.waitOn == m) { t.status = 0; } }
BI(th_unlock) { uint64_t m = a[0].c; X.rel(s, m); s.mutexOwner[m] = -1; wakeMutex(s, m); finish(X, s, I, Val::C(0)); X.yieldPoint(s); return false; }
BI(cv_wait) { // void __sym_cv_wait(cv*, mutex*): phase 1 release+block, phase 2 re-acquire
    Thread& t = s.th[s.cur]; uint64_t cv = a[0].c, m = a[1].c;
    if (!t.woken) { X.rel(s, m); s.mutexOwner[m] = -1; wakeMutex(s, m); t.status = 1; t.waitKind = 3; t.waitOn = cv; t.woken = true; X.schedule(s, true); return false; }
    auto it = s.mutexOwner.find(m); if (it != s.mutexOwner.end() && it->second != -1) { block(s, 2, m); X.schedule(s, true); return false; }
    t.woken = false; s.mutexOwner[m] = s.cur; X.acq(s, m); finish(X, s, I, Val::C(0)); X.yieldPoint(s); return false; }
BI(cv_notify_all) { for (auto& t : s.th) if (t.status == 1 && t.waitKind == 3 && t.waitOn == a[0].c) { t.status = 0; t.waitKind = 0; } finish(X, s, I, Val::C(0)); X.yieldPoint(s); return false; }
BI(cv_notify_one) { std::vector<int> w; for (size_t i = 0; i < s.th.size(); ++i) { Thread& t = s.th[i]; if (t.status == 1 && t.waitKind == 3 && t.waitOn == a[0].c) w.push_back((int)i); }
    if (w.empty()) { finish(X, s, I, Val::C(0)); X.yieldPoint(s); return false; }
    int pick = w[0]; if (w.size() > 1) { std::string u = "wake"; int k = s.nameCount[u]; std::string un = k ? u + "#" + std::to_string(k) : u; E v = mkVar(4, un); bool done = false; for (size_t i = 0; i + 1 < w.size() && !done; ++i) { if (X.decide(s, mkEq(v, mkC(4, (uint64_t)i)))) { pick = w[i]; done = true; } } if (!done) pick = w.back(); s.nameCount[u]++; s.inputs.push_back({un, mkZExt(v, 64)}); }
    s.th[pick].status = 0; s.th[pick].waitKind = 0; finish(X, s, I, Val::C(0)); X.yieldPoint(s); return false; }
BI(th_yield) { finish(X, s, I, Val::C(0)); X.yieldPoint(s); return false; }
BI(th_self) { r = Val::C((uint64_t)s.cur); return true; }
Builtin findBuiltin(const std::string& n, bool& over) {
    over = overrides.count(n) != 0; auto it = tab.find(n); if (it != tab.end()) return it->second; for (auto& p : prefixes) if (n.compare(0, p.first.size(), p.first) == 0) return p.second; return nullptr;
}
void registerBuiltins() {
    auto T = [&](const char* n, Builtin b) { tab[n] = b; };
    for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "valloc"}) T(n, b_malloc); T("calloc", b_calloc); T("realloc", b_realloc); T("aligned_alloc", b_memalign);
    for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) T(n, b_free);
    T("memcpy", b_memcpy); T("memmove", b_memcpy); T("memset", b_memset); T("memcmp", b_memcmp); T("bcmp", b_bcmp); T("strlen", b_strlen); T("memchr", b_memchr);
    T("sym_i64", sym_i64); T("sym_choice", sym_choice); T("sym_f64", sym_f64); T("sym_assume_", sym_assume_); T("sym_assert_", sym_assert_); T("sym_assert_close", sym_assert_close); T("sym_reach", sym_reach_); T("sym_concrete", sym_concrete); T("sym_note", sym_note); T("sym_is_symbolic_d", sym_is_symbolic_d);
    T("__cxa_allocate_exception", cxa_alloc); T("__cxa_free_exception", cxa_free); T("__cxa_throw", cxa_throw); T("__cxa_begin_catch", cxa_begin); T("__cxa_end_catch", cxa_end); T("__cxa_rethrow", cxa_rethrow); T("__cxa_get_exception_ptr", cxa_getptr); T("_ZSt19uncaught_exceptionsv", b_uncaught); T("__sym_current_exception", b_curexc); T("__sym_rethrow", b_rethrowptr); T("llvm.eh.typeid.for", eh_typeid); T("llvm.eh.typeid.for.p0", eh_typeid);
    T("_ZSt9terminatev", b_terminate); T("abort", b_terminate); T("__cxa_pure_virtual", b_terminate); T("__cxa_bad_cast", b_terminate); T("__cxa_call_unexpected", b_terminate); T("_ZSt21__glibcxx_assert_failPKciS0_S0_", b_assertfail); T("__assert_fail", b_assertfail); T("llvm.trap", b_terminate); T("exit", b_exit); T("_exit", b_exit); T("__dynamic_cast", b_dyncast); T("__clang_call_terminate", b_terminate); overrides.insert("__clang_call_terminate");
    T("__cxa_guard_acquire", b_guard_acq); T("__cxa_guard_release", b_guard_rel); T("__cxa_guard_abort", nop); T("pthread_cond_destroy", nop); T("pthread_mutex_destroy", nop); T("__cxa_atexit", nop); T("__cxa_thread_atexit", nop); T("atexit", nop); T("__errno_location", b_errno);
    T("llvm.va_start", va_start); T("llvm.va_end", nop); T("llvm.va_copy", va_copy); T("snprintf", b_snprintf); T("sprintf", b_sprintf); T("vsnprintf", b_vsnprintf); T("printf", nop); T("puts", nop); T("putchar", nop); T("fprintf", nop); T("fputs", nop); T("fwrite", b_write); T("fputc", nop); T("fflush", nop); T("__sym_fmt_double", fmt_double); T("strtod", b_strtod); T("strtol", b_strtol); T("strtoll", b_strtol); T("strtoul", b_strtol); T("time", b_time); T("llvm.threadlocal.address.p0", b_tls);
    struct { const char* n; Builtin b; } m[] = {{"sqrt", m_sqrt}, {"exp", m_exp}, {"log", m_log}, {"erfc", m_erfc}, {"erf", m_erf}, {"sin", m_sin}, {"cos", m_cos}, {"tan", m_tan}, {"atan", m_atan}, {"asin", m_asin}, {"acos", m_acos}, {"sinh", m_sinh}, {"cosh", m_cosh}, {"tanh", m_tanh}, {"asinh", m_asinh}, {"cbrt", m_cbrt}, {"tgamma", m_tgamma}, {"lgamma", m_lgamma}, {"log2", m_log2}, {"log10", m_log10}, {"log1p", m_log1p}, {"expm1", m_expm1}, {"pow", m_pow}, {"atan2", m_atan2}, {"hypot", m_hypot}, {"fmod", m_fmod}, {"fabs", m_fabs}, {"floor", m_floor}, {"ceil", m_ceil}, {"trunc", m_trunc}, {"rint", m_rint}, {"nearbyint", m_rint}, {"round", m_round}, {"lround", m_lround}, {"fma", m_fma}, {"fmin", m_minnum}, {"fmax", m_maxnum}, {"copysign", m_copysign}, {"frexp", m_frexp}, {"ldexp", m_ldexp}, {"modf", m_modf}, {"nextafter", m_nextafter}};
    for (auto& x : m) { T(x.n, x.b); prefixes.push_back({std::string("llvm.") + x.n + ".f64", x.b}); prefixes.push_back({std::string("llvm.") + x.n + ".v2f64", x.b}); }
    auto P = [&](const char* n, Builtin b) { prefixes.push_back({n, b}); };
    P("llvm.memcpy.", b_memcpy); P("llvm.memmove.", b_memcpy); P("llvm.memset.", b_memset); P("llvm.lifetime.", nop); P("llvm.dbg.", nop); P("llvm.assume", b_assume); P("llvm.experimental.noalias", nop); P("llvm.invariant.", nop); P("llvm.prefetch", nop); P("llvm.expect.", identity); P("llvm.launder.", identity); P("llvm.strip.", identity); P("llvm.annotation", identity); P("llvm.is.constant", b_zero);
    P("llvm.uadd.with.overflow", o_uadd); P("llvm.sadd.with.overflow", o_sadd); P("llvm.usub.with.overflow", o_usub); P("llvm.ssub.with.overflow", o_ssub); P("llvm.umul.with.overflow", o_umul); P("llvm.smul.with.overflow", o_smul); P("llvm.usub.sat", i_usubsat); P("llvm.uadd.sat", i_uaddsat); P("llvm.umax.", i_umax); P("llvm.umin.", i_umin); P("llvm.smax.", i_smax); P("llvm.smin.", i_smin); P("llvm.abs.", i_abs); P("llvm.ctlz.", i_ctlz); P("llvm.cttz.", i_cttz); P("llvm.ctpop.", i_ctpop); P("llvm.bswap.", i_bswap); P("llvm.fshl.", i_fshl); P("llvm.fshr.", i_fshr); P("llvm.objectsize.", b_objsize); P("llvm.fmuladd.", m_fma); P("llvm.minnum.", m_minnum); P("llvm.maxnum.", m_maxnum); P("llvm.is.fpclass.f64", is_fpclass); P("llvm.stacksave", b_stacksave); P("llvm.stackrestore", nop); P("llvm.vector.reduce.fadd", b_vreduce_fadd); P("llvm.vector.reduce.add", b_vreduce_add); P("llvm.nearbyint", m_rint); P("llvm.roundeven", m_rint);
    T("__sym_thread_create", th_create); T("__sym_thread_join", th_join); T("__sym_cv_wait", cv_wait); T("__sym_cv_notify_one", cv_notify_one); T("__sym_cv_notify_all", cv_notify_all); T("pthread_mutex_lock", th_lock); T("pthread_mutex_unlock", th_unlock); T("pthread_mutex_trylock", th_trylock); T("pthread_mutex_init", b_zero); T("pthread_mutex_destroy", b_zero); T("sched_yield", th_yield); T("__sym_self", th_self); T("pthread_self", th_self);
}
