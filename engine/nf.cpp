#include "nf.h"
#include <algorithm>
namespace {
struct R32 { int p, q; bool operator<(const R32& o) const { return p != o.p ? p < o.p : q < o.q; } bool operator==(const R32& o) const { return p == o.p && q == o.q; } };
R32 norm(long p, long q) { if (q < 0) { p = -p; q = -q; } long g = std::__gcd(p < 0 ? -p : p, q); if (g > 1) { p /= g; q /= g; } if (p > 1000000 || p < -1000000 || q > 1000000) throw 1; return R32{(int)p, (int)q}; }
R32 addr(R32 a, R32 b) { return norm((long)a.p * b.q + (long)b.p * a.q, (long)a.q * b.q); }
typedef std::vector<std::pair<int, R32>> Mono;
typedef std::map<Mono, mpq_class> Poly;
typedef std::map<int, int> Den;
struct RatFn { Poly n; Den d; };
const size_t CAP = 6000;
struct Atom { E e = nullptr; int kind = 0; int radicand = -1; std::string key; bool pos = false; int base = -1; Poly arg; Den argd; }; // kind 0 plain, 1 sqrt, 2 exp (any rational exponent), 3 log, 4 erfc
std::vector<Atom> atoms; std::map<std::string, int> atomByKey; std::map<E, int> atomByExpr;
std::vector<Poly> factors; std::map<Poly, int> factorId;
std::map<E, RatFn> memo; std::set<E> failed;
int atomOf(E e) { auto it = atomByExpr.find(e); if (it != atomByExpr.end()) return it->second; Atom a; a.e = e; atoms.push_back(a); return atomByExpr[e] = (int)atoms.size() - 1; }
int atomKey(int kind, const std::string& k, int rad = -1) { std::string kk = std::to_string(kind) + ":" + k; auto it = atomByKey.find(kk); if (it != atomByKey.end()) return it->second; Atom a; a.kind = kind; a.key = kk; a.radicand = rad; atoms.push_back(a); return atomByKey[kk] = (int)atoms.size() - 1; }
void addTo(Poly& r, const Mono& m, const mpq_class& c) { if (c == 0) return; auto it = r.find(m); if (it == r.end()) r.emplace(m, c); else { it->second += c; if (it->second == 0) r.erase(it); } if (r.size() > CAP) throw 1; }
Poly pconst(const mpq_class& c) { Poly p; if (c != 0) p[Mono()] = c; return p; }
Poly patom(int a, R32 e = R32{1, 1}) { Poly p; p[Mono{{a, e}}] = 1; return p; }
bool isConst(const Poly& p, mpq_class& c) { if (p.empty()) { c = 0; return true; } if (p.size() == 1 && p.begin()->first.empty()) { c = p.begin()->second; return true; } return false; }
Mono mmul(const Mono& a, const Mono& b) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { R32 e = addr(a[i].second, b[j].second); if (e.p) r.push_back({a[i].first, e}); ++i; ++j; } } return r; }
Poly padd(const Poly& a, const Poly& b) { Poly r = a; for (auto& t : b) addTo(r, t.first, t.second); return r; }
Poly pmul(const Poly& a, const Poly& b);
void addReduced(Poly& r, const Mono& m, const mpq_class& c) {
    for (size_t i = 0; i < m.size(); ++i) if (atoms[m[i].first].kind == 1 && m[i].second.q == 1 && m[i].second.p >= 2) {
        int k = m[i].second.p; Mono rest = m; rest.erase(rest.begin() + i); if (k % 2) { rest.push_back({m[i].first, R32{1, 1}}); std::sort(rest.begin(), rest.end(), [](auto& x, auto& y) { return x.first < y.first; }); }
        Poly q; q[rest] = c; for (int j = 0; j < k / 2; ++j) q = pmul(q, factors[atoms[m[i].first].radicand]); for (auto& t : q) addTo(r, t.first, t.second); return;
    }
    addTo(r, m, c);
}
Poly pmul(const Poly& a, const Poly& b) { if (a.size() * b.size() > 400000) throw 1; Poly r; for (auto& x : a) for (auto& y : b) addReduced(r, mmul(x.first, y.first), x.second * y.second); return r; }
Poly pscale(const Poly& a, const mpq_class& c) { Poly r; if (c == 0) return r; for (auto& t : a) r[t.first] = t.second * c; return r; }
int internFactor(const Poly& p) { auto it = factorId.find(p); if (it != factorId.end()) return it->second; factors.push_back(p); return factorId[p] = (int)factors.size() - 1; }
Poly ppow(const Poly& p, int k) { Poly r = pconst(1); while (k-- > 0) r = pmul(r, p); return r; }
RatFn radd(const RatFn& a, const RatFn& b) {
    if (a.d == b.d) return RatFn{padd(a.n, b.n), a.d};
    Den l = a.d; for (auto& t : b.d) { int& x = l[t.first]; x = std::max(x, t.second); }
    auto lift = [&](const RatFn& r) { Poly n = r.n; for (auto& t : l) { auto it = r.d.find(t.first); int have = it == r.d.end() ? 0 : it->second; if (t.second > have) n = pmul(n, ppow(factors[t.first], t.second - have)); } return n; };
    return RatFn{padd(lift(a), lift(b)), l};
}
void cancelMono(RatFn& r) { // cancel single-atom factors dividing every term of the numerator
    if (r.n.empty()) { r.d.clear(); return; }
    for (auto it = r.d.begin(); it != r.d.end();) {
        const Poly& f = factors[it->first]; bool erased = false;
        if (f.size() == 1 && f.begin()->first.size() == 1 && f.begin()->second == 1) {
            int at = f.begin()->first[0].first; int k = it->second;
            for (auto& t : r.n) { int e = 0; for (auto& x : t.first) if (x.first == at && x.second.q == 1) e = x.second.p; k = std::min(k, e); }
            if (k > 0) { Poly n; for (auto& t : r.n) { Mono m; for (auto& x : t.first) { if (x.first == at) { R32 e = addr(x.second, R32{-k, 1}); if (e.p) m.push_back({at, e}); } else m.push_back(x); } n[m] = t.second; } r.n = n; it->second -= k; if (!it->second) { it = r.d.erase(it); erased = true; } }
        } else if (f.size() >= 2 && r.n.size() >= f.size()) { // exact multiple c*mono*f ?
            if (r.n.size() == f.size()) { mpq_class c = r.n.begin()->second / f.begin()->second; bool same = true; auto i = r.n.begin(); auto j = f.begin(); for (; i != r.n.end(); ++i, ++j) if (i->first != j->first || i->second != c * j->second) { same = false; break; }
                if (same) { r.n = pconst(c); if (!--it->second) { it = r.d.erase(it); erased = true; } } }
        }
        if (!erased) ++it;
    }
}
RatFn rmul(const RatFn& a, const RatFn& b) { RatFn r; r.n = pmul(a.n, b.n); r.d = a.d; for (auto& t : b.d) r.d[t.first] += t.second; cancelMono(r); return r; }
RatFn rinv(const RatFn& a) {
    if (a.n.empty()) throw 1;
    RatFn r; r.n = pconst(1); for (auto& t : a.d) r.n = pmul(r.n, ppow(factors[t.first], t.second));
    // split the numerator into content: monomial part and primitive part
    mpq_class lead = a.n.begin()->second; Poly p = pscale(a.n, 1 / lead); r.n = pscale(r.n, 1 / lead);
    Mono common = p.begin()->first; for (auto& t : p) { Mono m; for (auto& x : common) for (auto& y : t.first) if (x.first == y.first) { R32 e = (long)x.second.p * y.second.q < (long)y.second.p * x.second.q ? x.second : y.second; m.push_back({x.first, e}); } common = m; }
    for (auto& x : common) {
        Mono inv{{x.first, R32{-x.second.p, x.second.q}}};
        if (atoms[x.first].kind == 2) { Poly q; q[inv] = 1; r.n = pmul(r.n, q); Poly p2; for (auto& t : p) p2[mmul(t.first, inv)] = t.second; p = p2; }
        else if (x.second.q == 1 && x.second.p > 0) { Poly p2; for (auto& t : p) p2[mmul(t.first, inv)] = t.second; p = p2; r.d[internFactor(patom(x.first))] += x.second.p; }
    }
    mpq_class c; if (isConst(p, c)) r.n = pscale(r.n, 1 / c); else { lead = p.begin()->second; r.n = pscale(r.n, 1 / lead); r.d[internFactor(pscale(p, 1 / lead))] += 1; }
    cancelMono(r); return r;
}
std::string mkey(const Mono& m) { std::string s; for (auto& x : m) s += "a" + std::to_string(x.first) + "^" + std::to_string(x.second.p) + "/" + std::to_string(x.second.q) + "."; return s; }
std::string dkey(const Den& d) { std::string s; for (auto& t : d) s += "f" + std::to_string(t.first) + "^" + std::to_string(t.second) + "."; return s; }
std::string pkey(const Poly& p) { std::string s; for (auto& t : p) s += t.second.get_str() + "*" + mkey(t.first) + "+"; return s; }
RatFn nf(E e);
RatFn logAbs(const Poly& p) { // log|p| for polynomial p
    mpq_class c; if (isConst(p, c)) { if (c == 1 || c == -1) return RatFn{}; mpq_class ac = abs(c); return RatFn{patom(atomKey(3, "c" + ac.get_str())), {}}; }
    if (p.size() == 1) { RatFn r = logAbs(pconst(p.begin()->second)); for (auto& x : p.begin()->first) { // log|atom|*exp
            mpq_class ex(x.second.p, x.second.q); RatFn t; if (atoms[x.first].kind == 2) { t.n = pscale(atoms[x.first].arg, ex); t.d = atoms[x.first].argd; r = radd(r, t); continue; } int la = atomKey(3, "a" + std::to_string(x.first)); atoms[la].base = x.first; t.n = pscale(patom(la), ex); r = radd(r, t); } return r; }
    mpq_class lead = p.begin()->second; RatFn r = logAbs(pconst(lead)); int f = internFactor(pscale(p, 1 / lead)); return radd(r, RatFn{patom(atomKey(3, "f" + std::to_string(f))), {}});
}
RatFn compute(E e) {
    switch (e->op) {
    case Op::RConst: return RatFn{pconst(*e->q), {}};
    case Op::RAdd: return radd(nf(e->a), nf(e->b));
    case Op::RMul: return rmul(nf(e->a), nf(e->b));
    case Op::RDiv: return rmul(nf(e->a), rinv(nf(e->b)));
    case Op::RVar: {
        VarInfo* v = e->var;
        if (v->uf == UfSqrt) { RatFn x = nf(v->ufArg); Poly rad = x.n; Den d = x.d; Poly extra = pconst(1); // sqrt(n/d) = sqrt(n*d)/d
            RatFn out; for (auto& t : d) { if (t.second % 2) rad = pmul(rad, factors[t.first]); } RatFn den; den.n = pconst(1); for (auto& t : d) den.d[t.first] = (t.second + 1) / 2;
            mpq_class c; if (rad.empty()) return RatFn{}; // pull out rational square content
            mpq_class lead = rad.begin()->second; mpz_class sn = sqrt(abs(lead.get_num())), sd = sqrt(lead.get_den()); if (lead > 0 && sn * sn == lead.get_num() && sd * sd == lead.get_den()) { rad = pscale(rad, 1 / lead); den.n = pconst(mpq_class(sn, sd)); }
            if (isConst(rad, c) && c == 1) return den;
            if (rad.size() == 1 && rad.begin()->first.size() == 1 && rad.begin()->second == 1 && atoms[rad.begin()->first[0].first].kind == 2) { R32 ex = rad.begin()->first[0].second; out.n = patom(rad.begin()->first[0].first, norm(ex.p, 2L * ex.q)); return rmul(out, den); }
            int f = internFactor(rad); out.n = patom(atomKey(1, "f" + std::to_string(f), f)); return rmul(out, den); }
        if (v->uf == UfExp) { RatFn x = nf(v->ufArg); RatFn r; r.n = pconst(1);
            for (auto& t : x.n) { const mpq_class& c = t.second;
                if (x.d.empty() && t.first.size() == 1 && t.first[0].second == R32{1, 1} && atoms[t.first[0].first].kind == 3 && c.get_den() == 1 && abs(c.get_num()) < 8) { const Atom& l = atoms[t.first[0].first]; if (l.base >= 0 && atoms[l.base].pos) { int k = (int)c.get_num().get_si(); RatFn b{patom(l.base), {}}; if (k < 0) b = rinv(b); for (int i = 0; i < (k < 0 ? -k : k); ++i) r = rmul(r, b); continue; } } // exp(k log y) = y^k for a positive y
                auto mk = [&](const std::string& key, const mpq_class& cc, R32 ex) { int id = atomKey(2, key); if (atoms[id].arg.empty()) { atoms[id].arg[t.first] = cc; atoms[id].argd = x.d; } r = rmul(r, RatFn{patom(id, ex), {}}); };
                if (!c.get_num().fits_sint_p() || !c.get_den().fits_sint_p() || abs(c.get_num()) > 1000000 || c.get_den() > 1000000) { mpq_class ac = abs(c); mk(mkey(t.first) + "/" + dkey(x.d) + "*" + ac.get_str(), ac, R32{c < 0 ? -1 : 1, 1}); continue; }
                mk(mkey(t.first) + "/" + dkey(x.d), 1, norm(c.get_num().get_si(), c.get_den().get_si())); }
            return r; }
        if (v->uf == UfLog) { RatFn x = nf(v->ufArg);
            if (x.d.empty() && x.n.size() == 1 && x.n.begin()->first.size() == 1 && x.n.begin()->second > 0 && x.n.begin()->first[0].second == R32{1, 1}) atoms[x.n.begin()->first[0].first].pos = true; // a logarithm is only taken of what this path decided is positive
            RatFn r = logAbs(x.n); for (auto& t : x.d) { RatFn l = logAbs(factors[t.first]); r = radd(r, RatFn{pscale(l.n, -t.second), l.d}); } return r; }
        if (v->uf == UfErfc) { RatFn x = nf(v->ufArg); if (x.n.empty()) return RatFn{pconst(1), {}}; bool neg = x.n.begin()->second < 0; Poly n = neg ? pscale(x.n, -1) : x.n; RatFn a{patom(atomKey(4, pkey(n) + "/" + dkey(x.d))), {}}; if (!neg) return a; return radd(RatFn{pconst(2), {}}, RatFn{pscale(a.n, -1), {}}); }
        return RatFn{patom(atomOf(e)), {}}; }
    default: return RatFn{patom(atomOf(e)), {}};
    }
}
RatFn nf(E e) { auto it = memo.find(e); if (it != memo.end()) return it->second; if (failed.count(e)) throw 1; try { RatFn r = compute(e); memo.emplace(e, r); return r; } catch (int) { failed.insert(e); throw; } }
} // namespace
int nfIsZero(E e) { try { RatFn r = nf(e); return r.n.empty() ? 1 : 0; } catch (int) { return -1; } }
bool nfConst(E e, mpq_class& q) { try { RatFn r = nf(e); return r.d.empty() && isConst(r.n, q); } catch (int) { return false; } }
bool nfKey(E e, std::string& key, int& sign) { try { RatFn r = nf(e); sign = 1; if (!r.n.empty() && r.n.begin()->second < 0) { sign = -1; r.n = pscale(r.n, -1); } key = pkey(r.n) + "/" + dkey(r.d); return true; } catch (int) { return false; } }
int nfTiny(E e) { try { RatFn r = nf(e); for (auto& t : r.n) if (abs(t.second) > mpq_class(1, 10000000000000l)) return 0; return 1; } catch (int) { return -1; } } // zero up to rounding of constants
