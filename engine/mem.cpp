#include "exec_core.h"
static Obj deadObj; 
static Obj* newObj(uint32_t size) { Obj* o = new Obj; o->size = size; o->bytes = (uint8_t*)calloc(size ? size : 1, 1); return o; }
static void unref(Obj* o) { if (o && o != &deadObj && --o->rc == 0) { free(o->bytes); free(o->mask); delete o->cells; delete o; } }
static Chunk* wrChunk(Mem& m, uint32_t ci) { Chunk* c = m.ch[ci]; if (c->rc == 1) return c; Chunk* n = new Chunk; for (int i = 0; i < 256; ++i) { n->o[i] = c->o[i]; if (n->o[i] && n->o[i] != &deadObj) ++n->o[i]->rc; } --c->rc; return m.ch[ci] = n; }
uint32_t Exec::alloc(State& s, uint64_t size, int kind, bool zero, const char* tag) {
    if (size > (1u << 28)) fail("huge allocation " + std::to_string(size));
    if (s.mem.n == 0) s.mem.n = 1; uint32_t id = s.mem.n++; uint32_t ci = id / 256; while (s.mem.ch.size() <= ci) { Chunk* c = new Chunk; memset(c->o, 0, sizeof c->o); s.mem.ch.push_back(c); }
    Obj* o = newObj((uint32_t)size); o->kind = kind; o->tag = tag; if (!zero) { o->mask = (uint8_t*)malloc(size ? size : 1); memset(o->mask, 1, size); }
    wrChunk(s.mem, ci)->o[id % 256] = o; return id;
}
const Obj* Exec::rd(State& s, uint32_t id) { if (id == 0 || id >= s.mem.n) return nullptr; return s.mem.ch[id / 256]->o[id % 256]; }
Obj* Exec::wr(State& s, uint32_t id) {
    Chunk* c = wrChunk(s.mem, id / 256); Obj* o = c->o[id % 256]; if (o->rc == 1) return o;
    Obj* n = new Obj(*o); n->rc = 1; n->bytes = (uint8_t*)malloc(o->size ? o->size : 1); memcpy(n->bytes, o->bytes, o->size); if (o->mask) { n->mask = (uint8_t*)malloc(o->size ? o->size : 1); memcpy(n->mask, o->mask, o->size); } if (o->cells) n->cells = new std::map<uint32_t, Cell>(*o->cells);
    --o->rc; c->o[id % 256] = n; return n;
}
void Exec::freeObj(State& s, uint32_t id) { deadObj.dead = true; deadObj.rc = 1 << 30; Chunk* c = wrChunk(s.mem, id / 256); unref(c->o[id % 256]); c->o[id % 256] = &deadObj; }
State* Exec::clone(State& s) { State* n = new State(s); for (Chunk* c : n->mem.ch) ++c->rc; n->id = ++nextState; return n; }
void Exec::release(State* s) { for (Chunk* c : s->mem.ch) if (--c->rc == 0) { for (int i = 0; i < 256; ++i) unref(c->o[i]); delete c; } delete s; }
const Obj* Exec::chk(State& s, uint64_t addr, uint64_t sz, uint32_t& off, const char* what, bool write) {
    uint32_t id = (uint32_t)(addr >> 32); const Obj* o = rd(s, id);
    if (!o) { violation(s, "memory", std::string(addr < 65536 ? "null pointer " : "invalid pointer ") + what + " at " + where(s), nullptr); }
    if (o->dead) violation(s, "memory", std::string("use after free: ") + what + " at " + where(s), nullptr);
    int64_t of = (int64_t)(addr & 0xffffffffull) - (int64_t)BASE;
    if (of < 0 || (uint64_t)of + sz > o->size || o->kind == OFunc) violation(s, "memory", std::string("out of bounds ") + what + " (offset " + std::to_string(of) + "+" + std::to_string(sz) + " of " + std::to_string(o->size) + " bytes) at " + where(s), nullptr);
    if (write && o->ro) violation(s, "memory", std::string("write to constant at ") + where(s), nullptr);
    off = (uint32_t)of; return o;
}
static Val bitsVal(uint64_t v) { return Val::C(v); }
// byte-level view of a cell
static Val cellByte(Exec& X, State& s, const Cell& c, unsigned i) {
    if (c.v.k == KQ) { return Val::C((dBits(c.v.q->d) >> (8 * i)) & 255); }
    if (c.v.k == KE && c.v.e->sort == SBV) { E e = c.v.e; if (e->w < 8 * c.sz) e = mkZExt(e, 8 * c.sz); return X.fromE(mkExtract(e, 8 * i, 8)); }
    if (c.v.k == KE && c.v.e->sort == SFP) return X.fromE(mkExtract(mkFOp(Op::FToBits, 64, SBV, c.v.e), 8 * i, 8));
    fail("partial access to symbolic real");
}
static void killCells(Exec& X, State& s, Obj* o, uint32_t off, unsigned n) { // remove cells overlapping [off,off+n), splitting BV remains
    if (!o->cells) return; auto it = o->cells->lower_bound(off >= 8 ? off - 8 : 0); std::vector<std::pair<uint32_t, Cell>> add;
    while (it != o->cells->end() && it->first < off + n) {
        uint32_t co = it->first; Cell c = it->second; if (co + c.sz <= off) { ++it; continue; }
        bool inside = co >= off && co + c.sz <= off + n;
        if (!inside) for (unsigned i = 0; i < c.sz; ++i) if (co + i < off || co + i >= off + n) { if (c.v.k == KE && c.v.e->sort != SBV && c.v.e->sort != SFP) { o->mask[co + i] = 3; continue; } Val b = cellByte(X, s, c, i); if (b.k == KC) { o->bytes[co + i] = (uint8_t)b.c; if (o->mask) o->mask[co + i] = 0; } else add.push_back({co + i, Cell{b, 1}}); }
        it = o->cells->erase(it);
    }
    for (auto& a : add) { (*o->cells)[a.first] = a.second; o->mask[a.first] = 2; }
}
Val Exec::loadN(State& s, uint64_t addr, unsigned n) {
    uint32_t off; const Obj* o = chk(s, addr, n, off, "read");
    bool clean = true, anyUndef = false, allUndef = true, sym = false;
    if (o->mask) { for (unsigned i = 0; i < n; ++i) { uint8_t m = o->mask[off + i]; if (m) clean = false; if (m == 3) fail("read of what is left of an overwritten symbolic real"); if (m == 1) anyUndef = true; else allUndef = false; if (m == 2) sym = true; } }
    if (clean) { uint64_t v = 0; memcpy(&v, o->bytes + off, n); return bitsVal(v); }
    if (!sym) { if (anyUndef && allUndef) return Val(); uint64_t v = 0; for (unsigned i = 0; i < n; ++i) if (o->mask[off + i] == 0) v |= (uint64_t)o->bytes[off + i] << (8 * i); return bitsVal(v); }
    auto it = o->cells->find(off); if (it != o->cells->end() && it->second.sz == n) return it->second.v;
    E e = nullptr; // assemble
    for (unsigned i = 0; i < n; ++i) {
        E b; uint8_t m = o->mask[off + i];
        if (m == 2) { auto j = o->cells->upper_bound(off + i); --j; Val v = cellByte(*this, s, j->second, off + i - j->first); b = toBV(s, v, 8); }
        else b = mkC(8, m == 1 ? 0 : o->bytes[off + i]);
        e = e ? mkConcat(b, e) : b;
    }
    return fromE(e);
}
void Exec::storeN(State& s, uint64_t addr, unsigned n, const Val& v) {
    uint32_t off; chk(s, addr, n, off, "write", true); Obj* o = wr(s, (uint32_t)(addr >> 32));
    if (o->cells && !o->cells->empty()) killCells(*this, s, o, off, n);
    if (v.k == KC) { memcpy(o->bytes + off, &v.c, n); if (o->mask) memset(o->mask + off, 0, n); return; }
    if (!o->mask) { o->mask = (uint8_t*)calloc(o->size ? o->size : 1, 1); }
    if (v.k == KU) { memset(o->mask + off, 1, n); return; }
    if (!o->cells) o->cells = new std::map<uint32_t, Cell>; memset(o->mask + off, 2, n); (*o->cells)[off] = Cell{v, n};
}
Val Exec::loadT(State& s, uint64_t addr, TypeD* t) {
    if (t->el.empty()) { Val v = loadN(s, addr, t->bytes); if (t->kind == TInt && t->bits % 8) { if (v.k == KC) v.c &= maskw(t->bits); else if (v.k == KE && v.e->sort == SBV && v.e->w > t->bits) v = fromE(mkExtract(v.e, 0, t->bits)); } else if (t->kind == TInt && v.k == KE && v.e->sort == SBV && v.e->w < t->bits) v = fromE(mkZExt(v.e, t->bits)); return v; }
    Agg* a = new Agg; for (auto& e : t->el) a->v.push_back(loadT(s, addr + e.first, e.second)); Val r; r.k = KA; r.a = a; return r;
}
void Exec::storeT(State& s, uint64_t addr, TypeD* t, const Val& v) {
    if (t->el.empty()) { if (v.k == KE && v.e->sort == SBV && v.e->w < 8 * t->bytes) { storeN(s, addr, t->bytes, fromE(mkZExt(v.e, 8 * t->bytes))); return; } storeN(s, addr, t->bytes, v); return; }
    for (size_t i = 0; i < t->el.size(); ++i) storeT(s, addr + t->el[i].first, t->el[i].second, v.k == KA ? v.a->v[i] : Val());
}
void Exec::copyMem(State& s, uint64_t d, uint64_t src, uint64_t n) {
    if (!n) return; uint32_t so, dof; const Obj* o = chk(s, src, n, so, "read"); chk(s, d, n, dof, "write", true);
    std::vector<uint8_t> b(o->bytes + so, o->bytes + so + n), m; if (o->mask) m.assign(o->mask + so, o->mask + so + n); std::vector<std::pair<uint32_t, Cell>> cs;
    if (o->cells && !o->cells->empty()) { auto it = o->cells->lower_bound(so >= 8 ? so - 8 : 0); for (; it != o->cells->end() && it->first < so + n; ++it) { uint32_t co = it->first; if (co + it->second.sz <= so) continue; if (co >= so && co + it->second.sz <= so + n) cs.push_back({co - so, it->second}); else for (unsigned i = 0; i < it->second.sz; ++i) if (co + i >= so && co + i < so + n) { Val v = cellByte(*this, s, it->second, i); if (v.k == KC) { b[co + i - so] = (uint8_t)v.c; m[co + i - so] = 0; } else cs.push_back({co + i - so, Cell{v, 1}}); } } }
    Obj* w = wr(s, (uint32_t)(d >> 32)); if (w->cells && !w->cells->empty()) killCells(*this, s, w, dof, (unsigned)n);
    memcpy(w->bytes + dof, b.data(), n); bool anyM = false; for (uint8_t x : m) if (x) { anyM = true; break; }
    if (anyM && !w->mask) w->mask = (uint8_t*)calloc(w->size ? w->size : 1, 1);
    if (w->mask) { if (m.size()) memcpy(w->mask + dof, m.data(), n); else memset(w->mask + dof, 0, n); }
    if (!cs.empty()) { if (!w->cells) w->cells = new std::map<uint32_t, Cell>; for (auto& c : cs) { (*w->cells)[dof + c.first] = c.second; memset(w->mask + dof + c.first, 2, c.second.sz); } }
}
void Exec::setMem(State& s, uint64_t d, const Val& byte, uint64_t n) {
    if (!n) return; uint32_t dof; chk(s, d, n, dof, "write", true); Obj* w = wr(s, (uint32_t)(d >> 32)); if (w->cells && !w->cells->empty()) killCells(*this, s, w, dof, (unsigned)n);
    if (byte.k == KC) { memset(w->bytes + dof, (int)byte.c, n); if (w->mask) memset(w->mask + dof, 0, n); } else if (byte.k == KU) { if (!w->mask) w->mask = (uint8_t*)calloc(w->size ? w->size : 1, 1); memset(w->mask + dof, 1, n); } else for (uint64_t i = 0; i < n; ++i) storeN(s, d + i, 1, byte);
}
std::string Exec::cstr(State& s, uint64_t a) { std::string r; for (;;) { Val v = loadN(s, a++, 1); if (v.k != KC) { r += '?'; continue; } if (!v.c) return r; r += (char)v.c; if (r.size() > 4000) return r; } }
// symbolic addresses
Val Exec::loadSym(State& s, const Val& p, TypeD* t) {
    E a = p.e; uint64_t mv; mpq_class q; bool def = evalUnder(a, *s.model, mv, nullptr); if (!def) fail("symbolic address without model");
    uint32_t id = (uint32_t)(mv >> 32); const Obj* o = rd(s, id); if (!o || o->dead) { assume(s, mkEq(a, mkC(64, mv))); uint32_t off; chk(s, mv, t->bytes, off, "read"); }
    uint64_t lo = mkAddr(id), hi = mkAddr(id, (int64_t)o->size - (int64_t)t->bytes);
    E inb = o->size < t->bytes ? mkFalse() : mkBin(Op::Ule, mkBin(Op::Sub, a, mkC(64, lo)), mkC(64, hi - lo));
    if (!decide(s, inb)) { uint64_t c = conc(s, p, 64); uint32_t off; chk(s, c, t->bytes, off, "read"); return loadT(s, c, t); }
    E off = mkBin(Op::Sub, a, mkC(64, lo)); uint64_t st = t->bytes; uint64_t omin = std::max<uint64_t>(off->umin, 0), omax = std::min<uint64_t>(off->umax, hi - lo);
    o = rd(s, id);
    bool simple = t->el.empty() && omax >= omin && (omax - omin) / st <= 600;
    if (simple) {
        // alignment: require that all feasible offsets are congruent to the model's offset modulo the element size
        uint64_t res = (mv - lo) % st; if (st > 1 && !(res == 0 && off->op == Op::Concat && off->b->op == Op::Const && off->b->aux == 0 && (1u << std::min<unsigned>(off->b->w, 16)) % st == 0)) { ModelP m; Res r; if (feasible(s, mkNot(mkEq(mkBin(Op::URem, off, mkC(64, st)), mkC(64, res))), m, r, tmoBranch) || r == Res::Unknown) simple = false; }
        if (simple) {
            Val acc; bool first = true, ok = true; uint64_t start = omin - omin % st + res; if (start < omin) start += st;
            // tighten with solver-free interval only; build chain from the end
            for (uint64_t k = start; k <= omax && ok; k += st) { if (k + st > o->size) break; Val v = loadT(s, mkAddr(id, (int64_t)k), t); if (v.k == KU) continue; if (first) { acc = v; first = false; continue; } bool ok2 = true; Val n = iteVal(s, mkEq(off, mkC(64, k)), v, acc, t, ok2); if (!ok2) ok = false; acc = n; }
            if (ok && !first) return acc;
        }
    }
    uint64_t c = conc(s, p, 64); return loadT(s, c, t);
}
void Exec::storeSym(State& s, const Val& p, TypeD* t, const Val& v) {
    E a = p.e; uint64_t mv; if (!evalUnder(a, *s.model, mv, nullptr)) fail("symbolic address without model"); uint32_t id = (uint32_t)(mv >> 32); const Obj* o = rd(s, id);
    if (o && !o->dead) { uint64_t lo = mkAddr(id), hi = mkAddr(id, (int64_t)o->size - (int64_t)t->bytes); E inb = o->size < t->bytes ? mkFalse() : mkBin(Op::Ule, mkBin(Op::Sub, a, mkC(64, lo)), mkC(64, hi - lo)); decide(s, inb); }
    uint64_t c = conc(s, p, 64); storeT(s, c, t, v);
}
