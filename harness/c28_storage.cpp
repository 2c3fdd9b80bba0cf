//@ prop C28
//@ src dal/storage/splat.cpp dal/storage/archive.cpp dal/storage/box.cpp dal/storage/bag.cpp dal/storage/json.cpp dal/risk/report.cpp dal/indice/fixings.cpp dal/math/cell.cpp dal/math/cellutils.cpp dal/utilities/dictionary.cpp dal/utilities/numerics.cpp dal/string/strings.cpp dal/string/stringutils.cpp dal/time/date.cpp dal/time/dateutils.cpp dal/time/datetime.cpp dal/time/datetimeutils.cpp
//@ force dal/storage/splat.cpp
//@ bounds every kind of member the archive knows; vectors of 0..3 and matrices up to 2x3 entries; numbers symbolic reals in cell tables and files (their text is an opaque token that gives the number back), strings of up to 3 symbolic characters; JSON with numbers from a fixed list, symbolic strings and dates; bags of up to two objects, shared or not
//@ stubs files are a list of lines in memory; the decimal text of a symbolic number is an opaque token (exact at 17 digits, off by half a unit of the last printed digit below that)
//@ run h_cells split=14 budget=60
//@ run h_file split=15 budget=60
//@ run h_json split=15 budget=60
//@ run h_bag split=3 budget=60
//@ run h_report split=4 budget=60
//@ run h_fix budget=60
//@ run h_bad budget=30
//@ run h_text budget=30
#include <dal/platform/platform.hpp>
#include <dal/storage/splat.hpp>
#include <dal/storage/json.hpp>
#include <dal/storage/archive.hpp>
#include <dal/storage/box.hpp>
#include <dal/storage/bag.hpp>
#include <dal/risk/report.hpp>
#include <dal/indice/fixings.hpp>
#include <dal/utilities/dictionary.hpp>
#include <dal/utilities/file.hpp>
#include <dal/time/datetimeutils.hpp>
#include "sym.h"
using namespace Dal;
static Vector_<String_> disk;
namespace Dal::File { void Read(const String_&, Vector_<String_>* d) { for (auto& l : disk) d->push_back(l); } void Write(const String_&, const Vector_<String_>& s) { disk = s; } void Remove(const String_&) {} }
static const char* NM[] = {"v0","v1","v2","v3","v4","v5","v6","v7","v8","v9","v10","v11","v12","v13","v14","v15","v16","v17","v18","v19","v20","v21","v22","v23"};
static int nmc;
static bool conc; // JSON: numbers from a list
static double num() { static const double L[5] = {0.1234567890123, -2.5e-9, 3.0, 1.0 / 3.0, 1.5e17}; if (conc) { int k = nmc++ % 5; return L[k]; } return sym_range(NM[nmc++], -1000, 1000); }
static char chr() { return (char)sym_i64(NM[nmc++], 32, 126); }
static bool plain; // letters only
static String_ str(int n) { String_ s; for (int i = 0; i < n; ++i) { char c = chr(); if (plain) ASSUME(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == ' ')); s += c; } return s; }
static bool same(const String_& a, const String_& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }
static Date_ day() { return Date_(2024, 1, 1).AddDays((int)sym_i64(NM[nmc++], 0, 9)); }
// one object with one member of the chosen kind
struct P_ : Storable_ { int k; double d = 0; bool b = false; String_ s; Date_ dt; Vector_<> v; Vector_<int> vi; Vector_<bool> vb; Vector_<String_> vs; Vector_<Date_> vd; Vector_<DateTime_> vt; Vector_<Cell_> vc; Matrix_<> m; Matrix_<String_> ms; Matrix_<Cell_> mc; Dictionary_ dic;
    P_(const String_& n, int k) : Storable_("Probe", n), k(k) {}
    void Write(Archive::Store_& dst) const override { using namespace Archive::Utils; dst.SetType("Probe"); SetOptional(dst, "name", name_); Set(dst, "kind", (double)k); switch (k) { case 0: Set(dst, "x", d); break; case 1: Set(dst, "x", b); break; case 2: Set(dst, "x", s); break; case 3: Set(dst, "x", dt); break; case 4: Set(dst, "x", v); break; case 5: Set(dst, "x", vi); break; case 6: Set(dst, "x", vb); break; case 7: Set(dst, "x", vs); break; case 8: Set(dst, "x", vd); break; case 9: Set(dst, "x", vt); break; case 10: Set(dst, "x", vc); break; case 11: Set(dst, "x", m); break; case 12: Set(dst, "x", ms); break; case 13: Set(dst, "x", mc); break; case 14: Set(dst, "x", dic); break; } dst.Done(); } };
struct R_ : Archive::Reader_ { R_() { Archive::Register("Probe", this); } Storable_* Build() const override { return nullptr; }
    Storable_* Build(const Archive::View_& src, Archive::Built_&) const override { using namespace Archive::Utils; using V = Archive::View_; String_ n; GetOptional(src, "name", &n, std::mem_fn(&V::AsString)); int k; Get(src, "kind", &k, std::mem_fn(&V::AsInt)); auto* p = new P_(n, k);
        switch (k) { case 0: Get(src, "x", &p->d, std::mem_fn(&V::AsDouble)); break; case 1: Get(src, "x", &p->b, std::mem_fn(&V::AsBool)); break; case 2: Get(src, "x", &p->s, std::mem_fn(&V::AsString)); break; case 3: Get(src, "x", &p->dt, std::mem_fn(&V::AsDate)); break; case 4: Get(src, "x", &p->v, std::mem_fn(&V::AsDoubleVector)); break; case 5: Get(src, "x", &p->vi, std::mem_fn(&V::AsIntVector)); break; case 6: Get(src, "x", &p->vb, std::mem_fn(&V::AsBoolVector)); break; case 7: Get(src, "x", &p->vs, std::mem_fn(&V::AsStringVector)); break; case 8: Get(src, "x", &p->vd, std::mem_fn(&V::AsDateVector)); break; case 9: Get(src, "x", &p->vt, std::mem_fn(&V::AsDateTimeVector)); break; case 10: Get(src, "x", &p->vc, std::mem_fn(&V::AsCellVector)); break; case 11: Get(src, "x", &p->m, std::mem_fn(&V::AsDoubleMatrix)); break; case 12: Get(src, "x", &p->ms, std::mem_fn(&V::AsStringMatrix)); break; case 13: Get(src, "x", &p->mc, std::mem_fn(&V::AsCellMatrix)); break; case 14: Get(src, "x", &p->dic, std::mem_fn(&V::AsDictionary)); break; } return p; } };
static __attribute__((noinline)) Cell_* cellN() { return new Cell_(num()); }
static __attribute__((noinline)) Cell_* cellS() { return new Cell_(str(2)); }
static __attribute__((noinline)) Cell_* cellD() { return new Cell_(day()); }
static __attribute__((noinline)) Cell_* cellB() { return new Cell_(sym_choice(NM[nmc++], 2) == 1); }
static Cell_ cell(int which) { switch (which % 4) { case 0: return *cellN(); case 1: return *cellS(); case 2: return *cellD(); default: return *cellB(); } }
static void fill(P_& p, int n) {
    switch (p.k) { case 0: p.d = num(); break; case 1: p.b = n % 2; break; case 2: p.s = str(n); break; case 3: p.dt = day(); break; case 4: for (int i = 0; i < n; ++i) p.v.push_back(num()); break; case 5: for (int i = 0; i < n; ++i) p.vi.push_back(i * 1000 - 1); break; case 6: for (int i = 0; i < n; ++i) p.vb.push_back(sym_choice(NM[nmc++], 2) == 1); break;
    case 7: for (int i = 0; i < n; ++i) p.vs.push_back(str(1)); break; case 8: for (int i = 0; i < n; ++i) p.vd.push_back(day()); break; case 9: for (int i = 0; i < n; ++i) p.vt.push_back(DateTime_(day(), 13, 30)); break; case 10: for (int i = 0; i < n; ++i) p.vc.push_back(cell(i)); break;
    case 11: p.m.Resize(n ? 2 : 0, n); for (int i = 0; i < p.m.Rows(); ++i) for (int j = 0; j < n; ++j) p.m(i, j) = num(); break; case 12: p.ms.Resize(n ? 2 : 0, n); for (int i = 0; i < p.ms.Rows(); ++i) for (int j = 0; j < n; ++j) p.ms(i, j) = str(1); break; case 13: p.mc.Resize(n ? 2 : 0, n); for (int i = 0; i < p.mc.Rows(); ++i) for (int j = 0; j < n; ++j) p.mc(i, j) = cell(i + 2 * j); break;
    case 14: for (int i = 0; i < n; ++i) p.dic.Insert(i == 0 ? "ALPHA" : i == 1 ? "BETA" : "GAMMA", cell(i)); break; } }
static bool eq(double a, double b) { return a == b; }
static bool eq(const Cell_& a, const Cell_& b) { if (Cell::IsEmpty(a) && Cell::IsEmpty(b)) return true; if (Cell::IsString(a) && Cell::IsString(b)) return same(Cell::ToString(a), Cell::ToString(b)); if (Cell::IsDouble(a) && Cell::IsDouble(b)) return Cell::ToDouble(a) == Cell::ToDouble(b); return a == b; }
template <class V> static void eqv(const V& a, const V& b) { ASSERT(a.size() == b.size(), "a vector comes back with its size"); for (int i = 0; i < (int)a.size() && i < (int)b.size(); ++i) ASSERT(a[i] == b[i], "a vector comes back with its entries"); }
template <class M> static void eqm(const M& a, const M& b) { if (a.Empty()) { ASSERT(b.Empty(), "an empty table comes back empty"); return; } ASSERT(a.Rows() == b.Rows() && a.Cols() == b.Cols(), "a table comes back with its shape"); for (int i = 0; i < a.Rows(); ++i) for (int j = 0; j < a.Cols(); ++j) ASSERT(eq(a(i, j), b(i, j)), "a table comes back with its entries"); }
static void compare(const P_& a, const Storable_& o) {
    const P_* q = dynamic_cast<const P_*>(&o); ASSERT(q != nullptr, "an object comes back with its type"); ASSERT(same(a.name_, q->name_) && a.k == q->k, "an object comes back with its name"); const P_& b = *q;
    switch (a.k) { case 0: ASSERT(eq(a.d, b.d), "a number comes back as it was"); break; case 1: ASSERT(a.b == b.b, "a flag comes back as it was"); break; case 2: ASSERT(same(a.s, b.s), "a string comes back as it was"); break; case 3: ASSERT(a.dt == b.dt, "a date comes back as it was"); break; case 4: eqv(a.v, b.v); break; case 5: eqv(a.vi, b.vi); break; case 6: eqv(a.vb, b.vb); break;
    case 7: ASSERT(a.vs.size() == b.vs.size(), "a vector of strings comes back with its size"); for (int i = 0; i < (int)a.vs.size(); ++i) ASSERT(same(a.vs[i], b.vs[i]), "a vector of strings comes back with its entries"); break; case 8: eqv(a.vd, b.vd); break; case 9: eqv(a.vt, b.vt); break; case 10: ASSERT(a.vc.size() == b.vc.size(), "a vector of cells comes back with its size"); for (int i = 0; i < (int)a.vc.size(); ++i) ASSERT(eq(a.vc[i], b.vc[i]), "a vector of cells comes back with its entries"); break;
    case 11: eqm(a.m, b.m); break; case 12: ASSERT(a.ms.Empty() ? b.ms.Empty() : a.ms.Rows() == b.ms.Rows() && a.ms.Cols() == b.ms.Cols(), "a table of strings comes back with its shape"); for (int i = 0; i < a.ms.Rows(); ++i) for (int j = 0; j < a.ms.Cols(); ++j) ASSERT(same(a.ms(i, j), b.ms(i, j)), "a table of strings comes back with its entries"); break; case 13: eqm(a.mc, b.mc); break;
    case 14: ASSERT(a.dic.Size() == b.dic.Size(), "a dictionary comes back with its size"); for (auto& kv : a.dic) ASSERT(eq(kv.second, b.dic.At(kv.first)), "a dictionary comes back with its entries"); break; } }
HARNESS(h_cells) {
    static R_ reader; nmc = 0; conc = false; plain = false; int k = sym_choice("kind", 15), n = sym_choice("size", 4); bool named = sym_choice("named", 2) == 1; if ((k == 0 || k == 3) && n) return; if (k == 1 && n > 1) return; if (k == 12 || k == 13 || k == 10) if (n == 3) return; P_ p(named ? String_("nm") : String_(), k); fill(p, n);
    Matrix_<Cell_> t = Splat(p); ASSERT(t.Cols() <= 2 + (k == 14 ? 2 : n > 1 ? n : 1), "a table is no wider than its widest entry"); Handle_<Storable_> r = UnSplat(t, false); compare(p, *r);
}
HARNESS(h_text) {
    nmc = 0; conc = false; double x = num(); String_ s = String::FromDouble(x); ASSERT(String::ToDouble(s) == x, "a number survives its decimal text");
}

static bool skip(int k, int n) { return ((k == 0 || k == 3) && n) || (k == 1 && n > 1) || ((k == 12 || k == 13 || k == 10) && n == 3); }
HARNESS(h_file) {
    static R_ reader; nmc = 0; plain = false; int k = sym_choice("kind", 15), n = sym_choice("size", 3); if (skip(k, n) || (k == 12 && n > 1)) return; conc = true; P_ p("nm", k); fill(p, n); if (k == 0) p.d = sym_range("d", -0.9, 0.9); ASSUME((k != 0) | (p.d < -0.001) | (p.d > 0.001));
    SplatFile("f", p); Handle_<Storable_> r = UnSplatFile("f", false); compare(p, *r);
}
HARNESS(h_json) {
    static R_ reader; nmc = 0; conc = true; plain = true; int k = sym_choice("kind", 14), n = sym_choice("size", 3); if (skip(k, n)) return; bool named = sym_choice("named", 2) == 1; P_ p(named ? String_("nm") : String_(), k); fill(p, n);
    String_ t = JSON::WriteString(p); Handle_<Storable_> r = JSON::ReadString(t, false); compare(p, *r);
}
static Handle_<Storable_> trip(int how, const Storable_& o) { if (how == 0) return UnSplat(Splat(o), false); if (how == 1) { SplatFile("f", o); return UnSplatFile("f", false); } return JSON::ReadString(JSON::WriteString(o), false); }
HARNESS(h_bag) {
    static R_ reader; nmc = 0; int how = sym_choice("how", 3); conc = how > 0; plain = how > 0; int shape = sym_choice("shape", 4); bool shared = sym_choice("shared", 2) == 1, named = sym_choice("named", 2) == 1;
    auto* p0 = new P_("a", 0); auto* p1 = new P_("b", 4); fill(*p0, 1); fill(*p1, 2); Handle_<Storable_> h0(p0), h1(p1);
    Bag_::map_t c; String_ k0 = named ? String_("one") : String_("k"), k1 = named ? String_("two") : String_("k"); Handle_<Storable_> second = shared ? h0 : h1;
    if (shape == 0) c.insert({k0, h0}); else if (shape == 1) { c.insert({k0, h0}); c.insert({k1, second}); } else if (shape == 2) { Bag_::map_t in; in.insert({String_("in"), second}); Handle_<Storable_> hb(new Bag_("inner", in)); c.insert({k0, h0}); c.insert({k1, hb}); }
    Bag_ bag("bag", c); Handle_<Storable_> r = trip(how, bag); auto* b = dynamic_cast<const Bag_*>(r.get()); ASSERT(b && b->name_ == "bag" && b->contents_.size() == c.size(), "a bag comes back with its name and size");
    auto i = c.begin(); auto j = b->contents_.begin(); Vector_<const Storable_*> got; for (; i != c.end(); ++i, ++j) { ASSERT(same(i->first, j->first), "a bag comes back with its keys"); ASSERT(j->second->type_ == i->second->type_, "a bag comes back with its objects' types"); const Storable_ *x = i->second.get(), *y = j->second.get(); if (auto* ib = dynamic_cast<const Bag_*>(x)) { auto* jb = dynamic_cast<const Bag_*>(y); ASSERT(jb && jb->contents_.size() == 1 && jb->name_ == "inner", "a bag in a bag comes back"); x = ib->contents_.begin()->second.get(); y = jb->contents_.begin()->second.get(); } compare(*dynamic_cast<const P_*>(x), *y); got.push_back(y); }
    if (got.size() == 2) ASSERT((got[0] == got[1]) == shared, "an object shared in the bag comes back shared, a distinct one distinct");
}
HARNESS(h_report) {
    nmc = 0; int na = 1 + sym_choice("axes", 3); int z[3]; Vector_<Report::Axis_> ax(na); int total = 1; static const char* AN[] = {"x", "alpha", "m"}; for (int i = 0; i < na; ++i) { z[i] = 1 + sym_choice(i == 0 ? "z0" : i == 1 ? "z1" : "z2", 2) + (i == 0); ax[i].name_ = AN[i]; ax[i].size_ = z[i]; total *= z[i]; if (i == 0) { ax[i].labels_.push_back("L0"); ax[i].labels_.push_back("L1"); } }
    Report_ rep("rep", ax); for (int i = 0; i < na; ++i) ASSERT(rep.Size(AN[i]) == z[i], "an axis has its size"); ASSERT((int)rep.Axes().size() == na, "a report has its axes");
    auto at = [&](int k) { auto a = rep.MakeAddress(); for (int i = na - 1; i >= 0; --i) { a[AN[i]] = k % z[i]; k /= z[i]; } return a; };
    Vector_<> v; for (int k = 0; k < total; ++k) { v.push_back(num()); rep[at(k)] = v[k]; } const Report_& cr = rep; for (int k = 0; k < total; ++k) ASSERT(cr[at(k)] == v[k], "each address has its own value");
    for (int i = 0; i < na; ++i) { auto a = at(0); a[AN[i]] = -1; ASSERT(throws_([&] { (void)cr[a]; }), "a negative index is refused"); if (i) ASSERT(throws_([&] { (void)rep[a]; }), "a negative index is refused"); a[AN[i]] = z[i]; ASSERT(throws_([&] { (void)cr[a]; }), "an index beyond the axis is refused"); if (i) ASSERT(throws_([&] { (void)rep[a]; }), "an index beyond an inner axis is refused"); }
    { auto a = rep.MakeAddress(); ASSERT(throws_([&] { a["nope"] = 1; }), "an unknown axis is refused"); ASSERT(throws_([&] { (void)rep.Size("nope"); }), "an unknown axis is refused"); }
    Vector_<Cell_> row(2); row[0] = Cell_(num()); row[1] = Cell_(String_("z")); rep.AddHeaderRow("x", 1, row); ASSERT(throws_([&] { rep.AddHeaderRow("x", 0, Vector_<Cell_>(1)); }), "a header row has a value per label"); ASSERT(throws_([&] { rep.AddHeaderRow("x", -1, row); }), "a header row before the first is refused");
    if (na > 1) { auto dup = ax; dup[1].name_ = dup[0].name_; ASSERT(throws_([&] { Report_ d("d", dup); }), "two axes of one name are refused"); }
    if (sym_choice("extend", 2)) { auto a = at(0); a["x"] = z[0]; double e = num(); rep[a] = e; ASSERT(rep.Size("x") == z[0] + 1 && cr[a] == e, "writing past the first axis extends it"); for (int k = 0; k < total; ++k) ASSERT(cr[at(k)] == v[k], "extending keeps the values"); }
    Handle_<Storable_> r = trip(0, rep); auto* q = dynamic_cast<const Report_*>(r.get()); ASSERT(q && q->name_ == "rep", "a report comes back"); for (int i = 0; i < na; ++i) ASSERT(q->Size(AN[i]) == rep.Size(AN[i]), "a report comes back with its axes"); for (int k = 0; k < total; ++k) ASSERT((*q)[at(k)] == v[k], "a report comes back with its values");
    const auto& h = q->Header("x"); ASSERT(h.labels_.size() == 2 && h.labels_[1] == "L1", "a report comes back with its labels"); ASSERT(eq(h.values_(1, 0), row[0]) && eq(h.values_(1, 1), row[1]), "a report comes back with its header rows"); ASSERT(Cell::IsEmpty(h.values_(0, 0)) && Cell::IsEmpty(h.values_(0, 1)), "a header row never set stays empty");
}
HARNESS(h_fix) {
    nmc = 0; int n = sym_choice("n", 4); int how = sym_choice("how", 3); conc = how > 0; Fixings_::vals_t m; Vector_<DateTime_> ts; Vector_<> vs; int d = 0;
    for (int i = 0; i < n; ++i) { d += how == 0 ? (int)sym_i64(NM[nmc++], 1, 40) : 17; ts.push_back(DateTime_(Date_(2024, 1, 10).AddDays(d), 9 + i, 5 * i)); vs.push_back(num()); m[ts.back()] = vs.back(); }
    FixHistory_ h(m); for (int i = 0; i < n; ++i) ASSERT(h.Find(ts[i]) == vs[i], "a fixing is found at its time");
    DateTime_ q(Date_(2024, 1, 10).AddDays(how == 0 ? (int)sym_i64("q", -2, 130) : 17), 9, 1); ASSERT(throws_([&] { (void)h.Find(q); }), "a time without a fixing is refused"); ASSERT(h.Find(q, true) == -Dal::INF, "a time without a fixing gives minus infinity when asked quietly");
    Fixings_ f("idx", m); Handle_<Storable_> r = trip(how, f); auto* g = dynamic_cast<const Fixings_*>(r.get()); ASSERT(g && g->name_ == "idx" && (int)g->vals_.size() == n, "fixings come back with their size"); auto it = g->vals_.begin(); for (int i = 0; i < n; ++i, ++it) ASSERT(it->first == ts[i] && it->second == vs[i], "fixings come back with their times and values");
}
HARNESS(h_bad) {
    static R_ reader; int c = sym_choice("case", 12); static const char* J[] = {"", "{", "[1,2]", "3", "{\"~type\": \"Nope\"}", "{\"a\": 1}", "{\"~type\": \"Probe\"}", "{\"~type\": \"Probe\", \"kind\": 0.0, \"x\": \"s\"}"};
    if (c < 8) { ASSERT(throws_([&] { (void)JSON::ReadString(J[c], false); }), "malformed JSON is refused"); return; }
    Matrix_<Cell_> m; if (c == 9) { m.Resize(1, 1); m(0, 0) = Cell_(String_("hello")); } else if (c == 10) { m.Resize(1, 3); m(0, 0) = Cell_(String_("~Nope")); } else if (c == 11) { P_ p("a", 0); m = Splat(p); for (int i = 0; i < m.Rows(); ++i) if (m(i, 1) == String_("x")) m(i, 1) = Cell_(String_("y")); } ASSERT(throws_([&] { (void)UnSplat(m, false); }), "a malformed table is refused");
}
