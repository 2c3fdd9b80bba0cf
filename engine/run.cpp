#include "exec_core.h"
#include <algorithm>
#include <cmath>
#include <sys/wait.h>
#include <unistd.h>
Exec X;
static std::string demangleish(const std::string& n) { return n; }
std::string Exec::where(State& s) { std::string r; Thread& t = s.th[s.cur]; int n = 0; for (int i = (int)t.fr.size() - 1; i >= 0 && n < 5; --i, ++n) { Frame& f = t.fr[i]; if (n) r += " < "; r += f.f->name; if (f.pc >= 0 && f.pc < (int)f.f->code.size()) { unsigned l = LLVMGetDebugLocLine(f.f->code[f.pc].v); if (l) r += ":" + std::to_string(l); } } return r; }
static void noteEq(State& s, E a, uint64_t v) { // path says a == v: later computations of the same term use the constant
    for (int i = 0; i < 4 && a->op != Op::Const; ++i) { if (a->sort != SBV) return; s.subst[a] = v & maskw(a->w); if (a->op == Op::SExt || a->op == Op::ZExt) { a = a->a; v &= maskw(a->w); } else if (a->op == Op::Add && a->b->op == Op::Const) { v = (v - a->b->aux) & maskw(a->w); a = a->a; } else return; }
}
void Exec::addPath(State& s, E c) { if (c->op == Op::Eq) { if (c->b->op == Op::Const) noteEq(s, c->a, c->b->aux); else if (c->a->op == Op::Const) noteEq(s, c->b, c->a->aux); } if (c->op == Op::Const) return; if (c->op == Op::And && c->w == 1) { addPath(s, c->a); addPath(s, c->b); return; } s.path.push_back(c); }
bool Exec::feasible(State& s, E c, ModelP& m, Res& r, unsigned tmo) {
    if (c->op == Op::Const) { r = c->aux ? Res::Sat : Res::Unsat; m = s.model; return c->aux; }
    uint64_t b; if (!s.noModel && evalUnder(c, *s.model, b, nullptr) && b) { r = Res::Sat; m = s.model; return true; }
    r = solve(s.path, c, s.model, m, tmo); return r == Res::Sat;
}
static E simpR(E c) { if (c->op == Op::REq || c->op == Op::RLt || c->op == Op::RLe) { mpq_class q; if (nfConst(mkRSub(c->a, c->b), q)) return mkC(1, c->op == Op::REq ? q == 0 : c->op == Op::RLt ? q < 0 : q <= 0); } else if (c->op == Op::Xor && c->b->op == Op::Const) { E r = simpR(c->a); if (r->op == Op::Const) return mkNot(r); } return c; }
int Exec::decide(State& s, E c) {
    if (c->op == Op::Const) return (int)c->aux; c = simpR(c); if (c->op == Op::Const) return (int)c->aux;
    E nc = mkNot(c); for (size_t i = s.path.size(); i-- > 0;) { if (s.path[i] == c) return 1; if (s.path[i] == nc) return 0; }
    uint64_t bv = 0; bool def = !s.noModel && evalUnder(c, *s.model, bv, nullptr);
    auto note = [&]() { ++forks; Thread& t = s.th[s.cur]; if (!t.fr.empty()) { Frame& f = t.fr.back(); unsigned l = f.pc < (int)f.f->code.size() ? LLVMGetDebugLocLine(f.f->code[f.pc].v) : 0; ++forkSites[f.f->name + ":" + std::to_string(l)]; } };
    if (def) {
        E other = bv ? nc : c, mine = bv ? c : nc; ModelP m; Res r = solve(s.path, other, s.model, m, tmoBranch);
        if (r == Res::Unsat) return (int)bv;
        State* n = clone(s); addPath(*n, other); if (r == Res::Sat) n->model = m; else { n->noModel = true; n->uncertain = true; ++uncertain; } work.push_back(n); note(); addPath(s, mine); return (int)bv;
    }
    ModelP m1, m0; Res r1 = solve(s.path, c, s.model, m1, tmoBranch); if (r1 == Res::Unsat) return 0; Res r0 = solve(s.path, nc, s.model, m0, tmoBranch); if (r0 == Res::Unsat) { if (r1 == Res::Sat && !s.noModel) s.model = m1; return 1; }
    State* n = clone(s); addPath(*n, nc); if (r0 == Res::Sat) { n->model = m0; } else { n->noModel = true; n->uncertain = true; ++uncertain; } work.push_back(n); note();
    addPath(s, c); if (r1 == Res::Sat) s.model = m1; else { s.noModel = true; s.uncertain = true; ++uncertain; } return 1;
}
void Exec::assume(State& s, E c) {
    c = simpR(c); if (c->op == Op::Const) { if (c->aux) return; throw PathEnd{1, "assume"}; }
    uint64_t bv; if (!s.noModel && evalUnder(c, *s.model, bv, nullptr) && bv) { addPath(s, c); return; }
    ModelP m; Res r = solve(s.path, c, s.model, m, tmoBranch); if (r == Res::Unsat) throw PathEnd{1, "assume"}; addPath(s, c); if (r == Res::Sat) s.model = m; else { s.noModel = true; s.uncertain = true; ++uncertain; }
}
uint64_t Exec::conc(State& s, const Val& v, int w) {
    if (v.k == KC) return v.c; if (v.k == KQ) return dBits(v.q->d); if (v.k == KU) fail("undefined value where a concrete one is needed at " + where(s)); E e = toBV(s, v, w); if (e->op == Op::Const) return e->aux;
    if (s.noModel) { ModelP m; Res r = solve(s.path, nullptr, s.model, m, tmoBranch, true); if (r == Res::Unsat) throw PathEnd{1, "infeasible"}; if (r != Res::Sat) fail("no model for concretisation"); s.model = m; s.noModel = false; }
    uint64_t b; if (!evalUnder(e, *s.model, b, nullptr)) fail("cannot concretise"); if (!decide(s, mkEq(e, mkC(w, b)))) throw PathEnd{1, "conc"}; return b;
}
std::string Exec::inputsOf(State& s, const Model& m, bool forFile) {
    std::string r; char buf[128];
    for (auto& in : s.inputs) {
        uint64_t b = 0; mpq_class q; evalUnder(in.second, m, b, &q);
        if (in.second->sort == SBV) snprintf(buf, sizeof buf, "%lld", (long long)sx(b, in.second->w)); else if (in.second->sort == SReal) snprintf(buf, sizeof buf, forFile ? "%.17g" : "%.17g", q.get_d()); else snprintf(buf, sizeof buf, "%.17g", bitsD(b));
        r += in.first + (forFile ? " " : "=") + buf + (forFile ? "\n" : " ");
    }
    return r;
}
static int sys(const std::string& c) { int r = system(c.c_str()); if (r == -1) return 99; if (WIFSIGNALED(r)) return 128 + WTERMSIG(r); return WEXITSTATUS(r); }
bool Exec::tryCandidate(State& s, const std::string& kind, const std::string& msg, E cond, bool& sat) {
    sat = false; std::vector<E> path = s.path; ModelP m = s.model; if (cond) path.push_back(cond);
    bool anyReal = false; for (auto& in : s.inputs) if (in.second->sort == SReal) anyReal = true;
    std::string key = kind + ":" + msg; if (spurious[key] >= 3) { sat = true; return false; }
    auto attempt = [&](const std::string& content) {
        std::string f = outPrefix + ".cand" + std::to_string(cands.size()); FILE* fp = fopen(f.c_str(), "w"); fputs(content.c_str(), fp); fclose(fp); if (replayCmd.empty()) return 1; int rc = sys(replayCmd + " " + f); if (rc == 99) { fprintf(stderr, "replay build failed\n"); return 0; } if (rc != 0 && rc != 77) { cands.push_back(Candidate{kind, msg, f, true, content}); return 1; } return 0; };
    int tries = 6; double tend = nowS() + 120;
    for (int i = 0; i < tries && nowS() < tend; ++i) {
        Res r = solve(path, nullptr, s.model, m, tmoAssert, true); if (r == Res::Unsat) break; if (r == Res::Unknown) { if (i == 0) { sat = true; } break; } sat = true;
        std::string content = (kind == "race" ? "race 1\n" : "") + inputsOf(s, *m, true); if (attempt(content)) return true;
        // block this assignment (integers) / move away (reals)
        E blk = mkFalse(); for (auto& in : s.inputs) { uint64_t b; mpq_class q; if (in.second->isConst()) continue; evalUnder(in.second, *m, b, &q); if (in.second->sort == SBV) blk = mkOr1(blk, mkNot(mkEq(in.second, mkC(in.second->w, b)))); else if (in.second->sort == SReal) { mpq_class h = abs(q) / 8 + mpq_class(1, 8); blk = mkOr1(blk, mkOr1(mkRCmp(Op::RLt, in.second, mkR(q - h)), mkRCmp(Op::RLt, mkR(q + h), in.second))); } else blk = mkOr1(blk, mkNot(mkEq(mkFOp(Op::FToBits, 64, SBV, in.second), mkC(64, b)))); }
        if (blk->op == Op::Const) break; path.push_back(blk);
    }
    if (sat && anyReal) { // search near the solver's model for inputs whose rounding to double still violates
        unsigned rs = 12345 + seed; auto rnd = [&]() { rs = rs * 1103515245u + 12345u; return ((rs >> 8) & 0xffff) / 65536.0; };
        for (int i = 0; i < 24 && nowS() < tend; ++i) { std::string c; char buf[64]; for (auto& in : s.inputs) { uint64_t b = 0; mpq_class q; evalUnder(in.second, *m, b, &q); if (in.second->sort == SReal && !in.second->isConst()) { double v = q.get_d(); double k = i < 6 ? std::round(v * (1 << (2 * i))) / (1 << (2 * i)) : i < 15 ? v * (0.5 + rnd()) + (rnd() - 0.5) * 0.25 : (i % 2 ? std::fabs(v) : v) * (0.2 + 2 * rnd()) + rnd(); snprintf(buf, sizeof buf, "%.17g", k); } else if (in.second->sort == SBV) snprintf(buf, sizeof buf, "%lld", (long long)sx(b, in.second->w)); else snprintf(buf, sizeof buf, "%.17g", in.second->sort == SReal ? q.get_d() : bitsD(b)); c += in.first + " " + buf + "\n"; } if (attempt(c)) return true; }
    }
    if (sat) { ++spurious[key]; if (verbose) fprintf(stderr, "unconfirmed candidate %s: %s [%s]\n", kind.c_str(), msg.c_str(), inputsOf(s, *m, false).c_str()); }
    return false;
}
void Exec::violation(State& s, const std::string& kind, const std::string& msg, E cond) {
    AssertStat& st = asserts["(" + kind + ")"]; ++st.checked; if (candMsgs.count(msg)) throw PathEnd{3, msg};
    bool sat; bool conf = tryCandidate(s, kind, msg, cond, sat); if (conf) { candMsgs.insert(msg); ++st.violated; throw PathEnd{3, msg}; }
    if (!sat) { throw PathEnd{1, "infeasible"}; } ++st.unknown; throw PathEnd{2, "unconfirmed " + kind + ": " + msg};
}
void Exec::takeEdge(State& s, const Edge& e) {
    Thread& t = s.th[s.cur]; Frame& f = t.fr.back(); if (!e.moves.empty()) { if (e.moves.size() == 1) { Val v = op(s, e.moves[0].second); t.regs[f.regBase + e.moves[0].first] = v; } else { Val tmp[64]; std::vector<Val> big; Val* p = tmp; if (e.moves.size() > 64) { big.resize(e.moves.size()); p = big.data(); } for (size_t i = 0; i < e.moves.size(); ++i) p[i] = op(s, e.moves[i].second); for (size_t i = 0; i < e.moves.size(); ++i) t.regs[f.regBase + e.moves[i].first] = p[i]; } }
    f.pc = e.pc;
}
void Exec::call(State& s, Func* f, std::vector<Val>& args, const Inst* I) {
    Thread& t = s.th[s.cur]; if (t.fr.size() > 4000) violation(s, "stack", "stack overflow (4000 frames) at " + where(s), nullptr);
    decode(f); ++f->calls; Frame fr; fr.f = f; fr.pc = 0; fr.regBase = (int)t.regs.size(); fr.call = I; fr.vaObj = 0; t.regs.resize(t.regs.size() + f->nregs);
    for (int i = 0; i < f->nparams && i < (int)args.size(); ++i) t.regs[fr.regBase + i] = args[i];
    if (f->vararg) { int extra = (int)args.size() - f->nparams; fr.vaObj = alloc(s, 8 * std::max(1, extra), OStack); for (int i = 0; i < extra; ++i) storeN(s, mkAddr(fr.vaObj, 8 * i), 8, args[f->nparams + i]); fr.allocas.push_back(fr.vaObj); }
    if (I) for (auto& b : I->byval) { uint32_t id = alloc(s, b.second->alloc, OStack); uint64_t src = conc(s, args[b.first], 64); copyMem(s, mkAddr(id), src, b.second->alloc); t.regs[fr.regBase + b.first] = Val::C(mkAddr(id)); fr.allocas.push_back(id); }
    t.fr.push_back(std::move(fr));
}
void Exec::retFrom(State& s, const Val& v) {
    Thread& t = s.th[s.cur]; Frame& f = t.fr.back(); for (uint32_t a : f.allocas) freeObj(s, a); t.regs.resize(f.regBase); t.fr.pop_back();
    if (t.fr.empty()) return; Frame& c = t.fr.back(); const Inst& I = c.f->code[c.pc]; setDst(s, I, v); if (I.op == OpInvoke) takeEdge(s, I.edges[0]); else ++c.pc;
}
static std::map<uint64_t, int> typeIds; int typeId(uint64_t ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = (int)typeIds.size() + 1; return typeIds[ti] = n; }
int Exec::typeClass(State& s, uint64_t ti) { // 0 class,1 si,2 vmi,3 other
    Val vt = loadN(s, ti, 8); if (vt.k != KC) return 3; const Obj* o = rd(s, (uint32_t)(vt.c >> 32)); if (!o || !o->tag) return 3; std::string n = o->tag; if (n.find("__si_class_type_info") != std::string::npos) return 1; if (n.find("__vmi_class_type_info") != std::string::npos) return 2; if (n.find("17__class_type_info") != std::string::npos) return 0; return 3;
}
bool Exec::typeMatch(State& s, uint64_t thrown, uint64_t want, uint64_t& adj) {
    if (thrown == want) return true; uint64_t n1 = loadN(s, thrown + 8, 8).c, n2 = loadN(s, want + 8, 8).c; if (n1 == n2) return true; if (cstr(s, n1) == cstr(s, n2)) return true;
    int c = typeClass(s, thrown); if (c == 1) return typeMatch(s, loadN(s, thrown + 16, 8).c, want, adj);
    if (c == 2) { uint64_t n = loadN(s, thrown + 20, 4).c; for (uint64_t i = 0; i < n; ++i) { uint64_t b = loadN(s, thrown + 24 + 16 * i, 8).c; int64_t fl = (int64_t)loadN(s, thrown + 32 + 16 * i, 8).c; uint64_t a2 = adj; if (!(fl & 1)) a2 += (fl >> 8); else { uint64_t vptr = loadN(s, adj, 8).c; a2 += loadN(s, vptr + (fl >> 8), 8).c; } if (typeMatch(s, b, want, a2)) { adj = a2; return true; } } }
    return false;
}
void Exec::doThrow(State& s) {
    Thread& t = s.th[s.cur]; ExcRec& er = s.exc[t.curExc];
    for (;;) {
        if (t.fr.empty()) { std::string n = cstr(s, loadN(s, er.tinfo + 8, 8).c); t.fr.clear(); throw PathEnd{5, "uncaught exception of type " + n}; }
        Frame& f = t.fr.back(); const Inst& I = f.f->code[f.pc];
        if (I.op == OpInvoke) {
            const Edge& e = I.edges[1]; const Inst& L = f.f->code[e.pc]; bool hit = L.cleanup; int sel = 0; uint64_t adj = t.curExc; bool matched = false;
            for (auto& c : L.clauses) { if (c.first) continue; uint64_t want = c.second.c; adj = t.curExc; if (want == 0 || typeMatch(s, er.tinfo, want, adj)) { matched = true; sel = typeId(want); break; } }
            if (matched) { er.adj = adj; hit = true; }
            if (hit) { t.selector = sel; takeEdge(s, e); return; }
        }
        for (uint32_t a : f.allocas) freeObj(s, a); t.regs.resize(f.regBase); t.fr.pop_back();
    }
}
static Val f2d(const Val& v) { if (v.k != KC) return v; uint32_t u = (uint32_t)v.c; float f; memcpy(&f, &u, 4); return Val::C(dBits(f)); }
static Val d2f(const Val& v) { if (v.k == KQ) { float f = (float)v.q->d; uint32_t u; memcpy(&u, &f, 4); return Val::C(u); } if (v.k != KC) return v; float f = (float)bitsD(v.c); uint32_t u; memcpy(&u, &f, 4); return Val::C(u); }
void Exec::stepLoop(State& s) {
    curState = &s;
    uint64_t tick = 0;
    for (;;) {
        Thread* t = &s.th[s.cur];
        if (t->fr.empty()) return;
        Frame* f = &t->fr.back(); const Inst& I = f->f->code[f->pc]; ++s.steps; ++steps; if ((++tick & 0xffff) == 0 && nowS() - t0 > budget) throw PathEnd{6, "time budget"};
        if (s.steps > maxSteps) violation(s, "nonterm", "more than " + std::to_string(maxSteps) + " steps: possible non-termination in " + f->f->name, nullptr);
        Val* R = t->regs.data() + f->regBase; auto V = [&](int i) -> const Val& { return i >= 0 ? R[i] : f->f->consts[-1 - i]; };
        switch (I.op) {
        case OpAdd: case OpSub: case OpMul: case OpUDiv: case OpSDiv: case OpURem: case OpSRem: case OpShl: case OpLShr: case OpAShr: case OpAnd: case OpOr: case OpXor: {
            const Val &a = V(I.ops[0]), &b = V(I.ops[1]);
            if (I.ty->kind == TVector) { Agg* g = new Agg; for (size_t i = 0; i < I.ty->el.size(); ++i) g->v.push_back(binop(s, I, I.op, a.a->v[i], b.a->v[i], I.ty->el[i].second->bits)); Val r; r.k = KA; r.a = g; R[I.dst] = r; ++f->pc; break; }
            if (I.ty->bits > 64) fail("i128 arithmetic at " + where(s));
            Val r = binop(s, I, I.op, a, b, I.ty->bits); R[I.dst] = r; ++f->pc; break; }
        case OpFAdd: case OpFSub: case OpFMul: case OpFDiv: case OpFRem: {
            const Val &a = V(I.ops[0]), &b = V(I.ops[1]); Val r;
            if (I.ty->kind == TVector) { Agg* g = new Agg; for (size_t i = 0; i < I.ty->el.size(); ++i) g->v.push_back(fpbin(s, I.op, a.a->v[i], b.a->v[i])); r.k = KA; r.a = g; }
            else if (I.ty->kind == TFloat) r = d2f(fpbin(s, I.op, f2d(a), f2d(b))); else if (I.ty->kind == TX86FP80) fail("x86_fp80"); else r = fpbin(s, I.op, a, b);
            R[I.dst] = r; ++f->pc; break; }
        case OpFNeg: { const Val& a = V(I.ops[0]); if (I.ty->kind == TVector) { Agg* g = new Agg; for (auto& x : a.a->v) g->v.push_back(fpneg(s, x)); Val r; r.k = KA; r.a = g; R[I.dst] = r; } else R[I.dst] = I.ty->kind == TFloat ? d2f(fpneg(s, f2d(a))) : fpneg(s, a); ++f->pc; break; }
        case OpICmp: { const Val &a = V(I.ops[0]), &b = V(I.ops[1]); if (I.oty->kind == TVector) { Agg* g = new Agg; for (size_t i = 0; i < I.oty->el.size(); ++i) g->v.push_back(icmp(s, I.pred, a.a->v[i], b.a->v[i], I.oty->el[i].second->bits)); Val r; r.k = KA; r.a = g; R[I.dst] = r; } else R[I.dst] = icmp(s, I.pred, a, b, I.oty->bits > 64 ? 64 : I.oty->bits); ++f->pc; break; }
        case OpFCmp: { const Val &a = V(I.ops[0]), &b = V(I.ops[1]); Val r; if (I.oty->kind == TVector) { Agg* g = new Agg; for (size_t i = 0; i < I.oty->el.size(); ++i) g->v.push_back(fpcmp(s, I.pred, a.a->v[i], b.a->v[i])); r.k = KA; r.a = g; } else r = I.oty->kind == TFloat ? fpcmp(s, I.pred, f2d(a), f2d(b)) : fpcmp(s, I.pred, a, b); R[I.dst] = r; ++f->pc; break; }
        case OpBr: {
            if (I.ops.empty()) { takeEdge(s, I.edges[0]); break; }
            const Val& c = V(I.ops[0]); if (c.k == KC) { takeEdge(s, I.edges[c.c & 1 ? 0 : 1]); break; }
            if (c.k == KU) violation(s, "uninit", "branch on uninitialised value at " + where(s), nullptr);
            int b = decide(s, toBV(s, c, 1)); takeEdge(s, I.edges[b ? 0 : 1]); break; }
        case OpSwitch: {
            const Val& c = V(I.ops[0]); int w = I.oty->bits; if (c.k == KU) violation(s, "uninit", "switch on uninitialised value at " + where(s), nullptr);
            if (c.k == KC) { int k = 0; for (size_t i = 0; i < I.cases.size(); ++i) if ((I.cases[i] & maskw(w)) == (c.c & maskw(w))) { k = (int)i + 1; break; } takeEdge(s, I.edges[k]); break; }
            E e = toBV(s, c, w); int k = 0; for (size_t i = 0; i < I.cases.size(); ++i) if (decide(s, mkEq(e, mkC(w, I.cases[i])))) { k = (int)i + 1; break; } takeEdge(s, I.edges[k]); break; }
        case OpSelect: {
            const Val &c = V(I.ops[0]); const Val &a = V(I.ops[1]), &b = V(I.ops[2]);
            if (c.k == KC) { Val r = (c.c & 1) ? a : b; R[I.dst] = r; ++f->pc; break; }
            if (c.k == KA) { Agg* g = new Agg; for (size_t i = 0; i < c.a->v.size(); ++i) { const Val& ci = c.a->v[i]; if (ci.k == KC) g->v.push_back((ci.c & 1) ? a.a->v[i] : b.a->v[i]); else g->v.push_back(decide(s, toBV(s, ci, 1)) ? a.a->v[i] : b.a->v[i]); } Val r; r.k = KA; r.a = g; R[I.dst] = r; ++f->pc; break; }
            if (c.k == KU) { if (a.k == KC && b.k == KC && a.c == b.c) R[I.dst] = a; else R[I.dst] = Val(); ++f->pc; break; }
            E e = toBV(s, c, 1); bool ok = false; Val r; if (I.ty->kind != TPtr) r = iteVal(s, e, a, b, I.ty, ok); if (!ok) { r = decide(s, e) ? a : b; } R[I.dst] = r; ++f->pc; break; }
        case OpTrunc: { const Val& a = V(I.ops[0]); if (a.k == KC) R[I.dst] = Val::C(a.c & maskw(I.ty->bits)); else if (a.k == KU) R[I.dst] = a; else if (a.k == KA) fail("vector trunc"); else R[I.dst] = fromE(mkExtract(toBV(s, a, I.oty->bits), 0, I.ty->bits)); ++f->pc; break; }
        case OpZExt: { const Val& a = V(I.ops[0]); if (a.k == KC) R[I.dst] = Val::C(a.c & maskw(I.oty->bits)); else if (a.k == KU) R[I.dst] = a; else if (a.k == KA) { Agg* g = new Agg; for (size_t i = 0; i < a.a->v.size(); ++i) g->v.push_back(a.a->v[i].k == KC ? a.a->v[i] : fromE(mkZExt(toBV(s, a.a->v[i], I.oty->el[i].second->bits), I.ty->el[i].second->bits))); Val r; r.k = KA; r.a = g; R[I.dst] = r; } else if (I.ty->bits > 64) fail("i128 zext"); else R[I.dst] = fromE(mkZExt(toBV(s, a, I.oty->bits), I.ty->bits)); ++f->pc; break; }
        case OpSExt: { const Val& a = V(I.ops[0]); if (a.k == KC) R[I.dst] = Val::C((uint64_t)sx(a.c, I.oty->bits) & maskw(I.ty->bits)); else if (a.k == KU) R[I.dst] = a; else if (a.k == KA) fail("vector sext"); else R[I.dst] = fromE(mkSExt(toBV(s, a, I.oty->bits), I.ty->bits)); ++f->pc; break; }
        case OpFPToSI: case OpFPToUI: { const Val& a0 = V(I.ops[0]); Val a = I.oty->kind == TFloat ? f2d(a0) : a0; Val r = fpToInt(s, a, I.ty->bits, I.op == OpFPToSI); R[I.dst] = r; ++f->pc; break; }
        case OpSIToFP: case OpUIToFP: { const Val& a = V(I.ops[0]); if (I.ty->kind == TVector) { Agg* g = new Agg; for (size_t i = 0; i < a.a->v.size(); ++i) g->v.push_back(intToFp(s, a.a->v[i], I.oty->el[i].second->bits, I.op == OpSIToFP)); Val r; r.k = KA; r.a = g; R[I.dst] = r; ++f->pc; break; } Val r = intToFp(s, a, I.oty->bits, I.op == OpSIToFP); if (I.ty->kind == TFloat) r = d2f(r); R[I.dst] = r; ++f->pc; break; }
        case OpFPTrunc: R[I.dst] = d2f(V(I.ops[0])); ++f->pc; break;
        case OpFPExt: if (I.ty->kind == TX86FP80) { R[I.dst] = V(I.ops[0]); ++f->pc; break; } R[I.dst] = f2d(V(I.ops[0])); ++f->pc; break;
        case OpPtrToInt: case OpIntToPtr: case OpFreeze: { Val r = V(I.ops[0]); if (I.op == OpFreeze && r.k == KU) r = I.ty->el.size() ? r : Val::C(0); if (I.op == OpPtrToInt && I.ty->bits < 64) { if (r.k == KC) r.c &= maskw(I.ty->bits); } R[I.dst] = r; ++f->pc; break; }
        case OpBitCast: { Val a = V(I.ops[0]); if ((I.oty->kind == TVector) != (I.ty->kind == TVector) || (I.ty->kind == TVector && I.oty->el.size() != I.ty->el.size())) { uint32_t id = alloc(s, 64, OStack); storeT(s, mkAddr(id), I.oty, a); a = loadT(s, mkAddr(id), I.ty); freeObj(s, id); } R[I.dst] = a; ++f->pc; break; }
        case OpGEP: {
            const Val& b = V(I.ops[0]); bool conc_ = b.k == KC; uint64_t off = (uint64_t)I.aux; for (size_t i = 0; i < I.gep.size(); ++i) { const Val& x = V(I.gep[i].first); if (x.k == KC) off += (uint64_t)(sx(x.c, I.opw[i]) * I.gep[i].second); else { conc_ = false; } }
            if (conc_) { R[I.dst] = Val::C(b.c + off); ++f->pc; break; }
            if (b.k == KA) fail("vector gep"); if (b.k == KU) { R[I.dst] = b; ++f->pc; break; }
            bool und = false; E e = toBV(s, b, 64); e = mkBin(Op::Add, e, mkC(64, off)); for (size_t i = 0; i < I.gep.size(); ++i) { const Val& x = V(I.gep[i].first); if (x.k == KU) und = true; else if (x.k != KC) e = mkBin(Op::Add, e, mkBin(Op::Mul, mkSExt(toBV(s, x, I.opw[i]), 64), mkC(64, (uint64_t)I.gep[i].second))); }
            R[I.dst] = und ? Val() : fromE(e); ++f->pc; break; }
        case OpAlloca: { uint64_t n = 1; const Val& c = V(I.ops[0]); n = c.k == KC ? c.c : conc(s, c, 64); uint32_t id = alloc(s, n * I.oty->alloc, OStack); f->allocas.push_back(id); R[I.dst] = Val::C(mkAddr(id)); ++f->pc; break; }
        case OpLoad: { Val p = V(I.ops[0]); if (p.k == KU) violation(s, "uninit", "load through uninitialised pointer at " + where(s), nullptr); Val v = p.k == KC ? loadT(s, p.c, I.ty) : loadSym(s, p, I.ty); if (raceOn && p.k == KC) { if (I.pred) acq(s, p.c); else raceAcc(s, p.c, I.ty->bytes, false); } t = &s.th[s.cur]; t->regs[t->fr.back().regBase + I.dst] = v; ++t->fr.back().pc; break; }
        case OpStore: { Val p = V(I.ops[1]); const Val& v = V(I.ops[0]); if (p.k == KU) violation(s, "uninit", "store through uninitialised pointer at " + where(s), nullptr); if (p.k == KC) storeT(s, p.c, I.oty, v); else storeSym(s, p, I.oty, v); if (raceOn && p.k == KC) { if (I.pred) rel(s, p.c); else raceAcc(s, p.c, I.oty->bytes, true); } ++f->pc; break; }
        case OpExtractValue: { Val a = V(I.ops[0]); for (unsigned k : I.idx) { if (a.k == KU) break; a = a.a->v[k]; } R[I.dst] = a; ++f->pc; break; }
        case OpInsertValue: {
            std::function<Val(const Val&, size_t, TypeD*)> ins = [&](const Val& a, size_t d, TypeD* ty) -> Val { if (d == I.idx.size()) return V(I.ops[1]); Agg* g = new Agg; if (a.k == KA) *g = *a.a; else g->v.resize(ty->el.size()); unsigned k = I.idx[d]; g->v[k] = ins(g->v[k], d + 1, ty->el[k].second); Val r; r.k = KA; r.a = g; return r; };
            Val r = ins(V(I.ops[0]), 0, I.ty); R[I.dst] = r; ++f->pc; break; }
        case OpExtractElement: { const Val& a = V(I.ops[0]); uint64_t k = conc(s, V(I.ops[1]), 64); R[I.dst] = a.k == KU ? a : a.a->v.at(k); ++f->pc; break; }
        case OpInsertElement: { const Val& a = V(I.ops[0]); uint64_t k = conc(s, V(I.ops[2]), 64); Agg* g = new Agg; if (a.k == KA) *g = *a.a; else g->v.resize(I.ty->el.size()); g->v.at(k) = V(I.ops[1]); Val r; r.k = KA; r.a = g; R[I.dst] = r; ++f->pc; break; }
        case OpShuffleVector: { const Val &a = V(I.ops[0]), &b = V(I.ops[1]); size_t n = I.oty->el.size(); Agg* g = new Agg; for (unsigned m : I.idx) { if (m == (unsigned)-1) g->v.push_back(Val()); else if (m < n) g->v.push_back(a.k == KA ? a.a->v[m] : Val()); else g->v.push_back(b.k == KA ? b.a->v[m - n] : Val()); } Val r; r.k = KA; r.a = g; R[I.dst] = r; ++f->pc; break; }
        case OpFence: ++f->pc; break;
        case OpAtomicRMW: {
            uint64_t p = conc(s, V(I.ops[0]), 64); Val old = loadT(s, p, I.oty); const Val& x = V(I.ops[1]); int w = I.oty->bits; Val nv;
            switch (I.pred) { case 0: nv = x; break; case 1: nv = binop(s, I, OpAdd, old, x, w); break; case 2: nv = binop(s, I, OpSub, old, x, w); break; case 3: nv = binop(s, I, OpAnd, old, x, w); break; case 5: nv = binop(s, I, OpOr, old, x, w); break; case 6: nv = binop(s, I, OpXor, old, x, w); break; default: fail("atomicrmw op"); }
            storeT(s, p, I.oty, nv); R[I.dst] = old; ++f->pc; if (raceOn) { acq(s, p); rel(s, p); } break; }
        case OpCmpXchg: { uint64_t p = conc(s, V(I.ops[0]), 64); Val old = loadT(s, p, I.oty); Val eq = icmp(s, 32, old, V(I.ops[1]), I.oty->bits); int b = eq.k == KC ? (int)eq.c : decide(s, toBV(s, eq, 1)); if (b) storeT(s, p, I.oty, V(I.ops[2])); Agg* g = new Agg; g->v.push_back(old); g->v.push_back(Val::C(b)); Val r; r.k = KA; r.a = g; R[I.dst] = r; ++f->pc; if (raceOn) { acq(s, p); rel(s, p); } break; }
        case OpLandingPad: { Agg* g = new Agg; g->v.push_back(Val::C(t->curExc)); g->v.push_back(Val::C((uint32_t)t->selector)); Val r; r.k = KA; r.a = g; R[I.dst] = r; ++f->pc; break; }
        case OpResume: { Val a = V(I.ops[0]); t->curExc = a.a->v[0].c; for (uint32_t x : f->allocas) freeObj(s, x); t->regs.resize(f->regBase); t->fr.pop_back(); if (t->fr.empty()) { throw PathEnd{5, "uncaught exception"}; } doThrow(s); break; }
        case OpUnreachable: violation(s, "unreachable", "unreachable executed at " + where(s), nullptr);
        case OpRet: { Val v; if (!I.ops.empty()) v = V(I.ops[0]); if (v.k == KE && v.e->sort == SBV && v.e->w >= 8 && v.e->smin != INT64_MIN && v.e->smax - v.e->smin > 0 && v.e->smax - v.e->smin <= 8 && !s.noModel) { // a result with one possible value becomes that value
            uint64_t b; ModelP m; if (evalUnder(v.e, *s.model, b, nullptr) && solve(s.path, mkNot(mkEq(v.e, mkC(v.e->w, b))), s.model, m, 2000) == Res::Unsat) { s.subst[v.e] = b; v = Val::C(b); } }
            retFrom(s, v); break; }
        case OpCall: case OpInvoke: {
            Func* fn = I.callee;
            if (!fn) { Val c = V(I.calleeOp); if (c.k == KU) violation(s, "uninit", "call through uninitialised pointer at " + where(s), nullptr); uint64_t a = c.k == KC ? c.c : conc(s, c, 64); const Obj* o = rd(s, (uint32_t)(a >> 32)); if (!o || o->kind != OFunc) violation(s, "memory", "call through invalid function pointer at " + where(s), nullptr); fn = o->fn; }
            std::vector<Val> args; args.reserve(I.ops.size()); for (int o : I.ops) args.push_back(V(o));
            if (fn->bi && (fn->decl || fn->overrideBi)) { ++fn->calls; Val r; if (fn->bi(*this, s, I, args, r)) { setDst(s, I, r); Thread& t2 = s.th[s.cur]; Frame& f2 = t2.fr.back(); if (I.op == OpInvoke) takeEdge(s, I.edges[0]); else ++f2.pc; } break; }
            if (fn->decl) fail("unsupported external function " + fn->name);
            call(s, fn, args, &I); break; }
        default: fail("unsupported opcode " + std::to_string(I.op) + " at " + where(s));
        }
    }
}
void Exec::run(const std::string& fn) {
    t0 = nowS(); State* s0 = new State; s0->mem = baseMem0; s0->model = std::make_shared<Model>(); s0->th.resize(1); work.push_back(s0);
    std::vector<Func*> init; auto gc = globalByName.find("llvm.global_ctors");
    if (gc != globalByName.end()) { const Obj* o = rd(*s0, gc->second); std::vector<std::pair<uint32_t, Func*>> v; for (uint32_t i = 0; i + 24 <= o->size; i += 24) { uint32_t pr; uint64_t fp; memcpy(&pr, o->bytes + i, 4); memcpy(&fp, o->bytes + i + 8, 8); const Obj* fo = rd(*s0, (uint32_t)(fp >> 32)); if (fo && fo->fn) v.push_back({pr, fo->fn}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : v) init.push_back(x.second); }
    auto hf = byName.find(fn); if (hf == byName.end()) { fprintf(stderr, "no harness %s\n", fn.c_str()); exit(3); } init.push_back(hf->second);
    while (!work.empty()) {
        if (nowS() - t0 > budget || (int)paths > maxPaths) { exhausted = false; break; }
        State* s; if (bfs) { s = work.front(); work.pop_front(); } else { s = work.back(); work.pop_back(); }
        try {
            for (;;) {
                if (s->cur == 0 && s->th[0].fr.empty()) { if (s->depth < (int)init.size()) { Func* f = init[s->depth++]; std::vector<Val> none; call(*s, f, none, nullptr); } else { throw PathEnd{0, "done"}; } }
                stepLoop(*s);
                if (s->th.size() > 1 && s->th[s->cur].fr.empty()) { if (s->cur != 0) { int me = s->cur; s->th[me].status = 2; for (auto& w : s->th) if (w.status == 1 && w.waitKind == 1 && w.waitOn == (uint64_t)me) { w.status = 0; w.waitKind = 0; } schedule(*s, true); } else if (s->depth >= (int)init.size()) throw PathEnd{0, "done"}; }
            }
        } catch (PathEnd& e) {
            try {
                if (e.kind == 5) { // uncaught exception: every path feasible here is a violation
                    s->th[s->cur].fr.clear(); violation(*s, "exception", e.msg, nullptr);
                }
            } catch (PathEnd& e2) { e = e2; }
            if (e.kind != 4) ++paths;
            switch (e.kind) { case 0: ++done; if (samples.size() < 5) samples.push_back(inputsOf(*s, *s->model, false)); break; case 1: ++killed; break; case 2: ++errs; ++errors[e.msg]; if (verbose) fprintf(stderr, "path error: %s [%s]\n", e.msg.c_str(), where(*s).c_str()); break; case 3: break; case 6: exhausted = false; break; default: break; }
        }
        release(s);
        if ((int)cands.size() >= maxCand) { exhausted = false; break; }
    }
    if (!work.empty()) exhausted = false;
}
