//@ prop C15
//@ src dal/script/visitor/domain.cpp
//@ bounds domains of one or two intervals (finite, half-infinite, whole line or singletons) and unions of three with real bounds in [-3, 3] that are 0 or at least 0.01 from it and from each other; members any reals of the intervals up to 20 in size
//@ run h_op1 split=7 budget=100
//@ run h_op2 split=8 budget=120
//@ run h_op2x split=6 tier=thorough tbudget=900
//@ run h_union split=8 budget=100
//@ run h_query split=6 budget=90
//@ run h_func split=3 budget=40
#include <dal/platform/platform.hpp>
#include <dal/script/visitor/domain.hpp>
#include <cmath>
#include "sym.h"
using namespace Dal; using namespace Dal::Script;
struct Iv { Interval_ i; double l, r; bool linf, rinf; };
static double bnd(const char* n, int sg) { return sg == 0 ? 0 : sg > 0 ? sym_range(n, 0.01, 3) : sym_range(n, -3, -0.01); }
static double prev[8]; static int np; static void apart(double b) { for (int i = 0; i < np; ++i) ASSUME((b == prev[i]) | (b >= prev[i] + 0.01) | (b <= prev[i] - 0.01)); prev[np++] = b; }
// kinds: 0 singleton, 1 finite, 2 (-inf, r], 3 [l, inf), 4 whole line, 5 [0, r], 6 singleton 0
static const char* LN[3] = {"l0", "l1", "l2"}; static const char* RN[3] = {"r0", "r1", "r2"}; static const char* XN[3] = {"x0", "x1", "x2"};
static Iv mk(int k, int id) {
    Iv v; v.linf = k == 2 || k == 4; v.rinf = k == 3 || k == 4; v.l = v.r = 0;
    if (k == 6) { v.i = Interval_(0.0); return v; }
    if (!v.linf) { v.l = k == 5 ? 0 : sym_range(LN[id], -3, 3); if (k != 5) { ASSUME((v.l >= 0.01) | (v.l <= -0.01)); apart(v.l); } }
    if (k == 0) { v.r = v.l; v.i = Interval_(v.l); return v; }
    if (!v.rinf) { v.r = sym_range(RN[id], -3, 3); ASSUME((v.r >= 0.01) | (v.r <= -0.01)); apart(v.r); if (!v.linf) ASSUME(v.r >= v.l + 0.01); }
    v.i = Interval_(v.linf ? Bound_(Bound_::minusInfinity_) : Bound_(v.l), v.rinf ? Bound_(Bound_::plusInfinity_) : Bound_(v.r)); return v;
}
static bool in(const Iv& v, double x) { return (v.linf || x >= v.l) && (v.rinf || x <= v.r); }
static double mem(const Iv& v, int id) { if (!v.linf && !v.rinf && v.l == v.r) return v.l; double x = sym_range(XN[id], -20, 20); ASSUME(in(v, x)); return x; }
static double app(int o, double x, double y) { return o == 0 ? x + y : o == 1 ? x - y : o == 2 ? x * y : o == 3 ? x / y : o == 4 ? (x < y ? x : y) : x > y ? x : y; }
static Domain_ dop(int o, const Domain_& a, const Domain_& b) { return o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : o == 3 ? a / b : o == 4 ? a.DMin(b) : a.DMax(b); }
HARNESS(h_op1) {
    int k1 = sym_choice("k1", 7), k2 = sym_choice("k2", 7), o = sym_choice("op", 6); if (o == 3 && k2 == 6) return; Iv a = mk(k1, 0), b = mk(k2, 1); double x = mem(a, 0), y = mem(b, 1); if (o == 3) ASSUME(y >= 0.01 || y <= -0.01);
    Domain_ r = dop(o, Domain_(a.i), Domain_(b.i)); ASSERT(r.Includes(app(o, x, y)), "the result of an operation on members lies in the result of the operation on their domains");
    if (o == 0) { Domain_ n = -Domain_(a.i); ASSERT(n.Includes(-x), "the negative of a member lies in the negated domain"); }
}
static void op2(int k1, int k2, int k3) {
    int o = sym_choice("op", 6), w = o == 1 || o == 3 ? sym_choice("side", 2) : 0; Iv a = mk(k1, 0), b = mk(k2, 1), c = mk(k3, 2); double x = mem(a, 0); int pick = sym_choice("pick", 2); double y = pick ? mem(b, 1) : mem(c, 2);
    Domain_ d(b.i); d.AddInterval(c.i); if (o == 3) { double z = w ? x : y; ASSUME((z >= 0.01) | (z <= -0.01)); } Domain_ e(a.i);
    Domain_ r = w ? dop(o, d, e) : dop(o, e, d); ASSERT(r.Includes(w ? app(o, y, x) : app(o, x, y)), "operations distribute over unions of intervals");
}
HARNESS(h_op2) { int k = sym_choice("kinds", 8); static const int K[8][3] = {{0, 0, 0}, {1, 0, 0}, {3, 0, 0}, {4, 0, 1}, {0, 0, 1}, {2, 0, 0}, {0, 0, 3}, {0, 5, 0}}; op2(K[k][0], K[k][1], K[k][2]); }
HARNESS(h_op2x) { int k = sym_choice("kinds", 6); static const int K[6][3] = {{1, 0, 1}, {1, 1, 1}, {3, 1, 0}, {1, 0, 3}, {2, 1, 0}, {3, 1, 3}}; op2(K[k][0], K[k][1], K[k][2]); }
HARNESS(h_union) {
    int q = sym_choice("q", 8), w = sym_choice("order", 2); int k[3] = {q & 1, q & 2 ? 1 : 0, q & 4 ? 3 : 0}; Iv v[3]; Domain_ d; for (int i = 0; i < 3; ++i) v[i] = mk(k[i], i); if (w) { Domain_ f; f.AddInterval(v[2].i); d.AddInterval(v[1].i); d.AddInterval(v[0].i); d.AddDomain(f); } else for (int i = 0; i < 3; ++i) d.AddInterval(v[i].i);
    double x = sym_range("x", -20, 20); for (int i = 0; i < 3; ++i) { if (!v[i].linf) ASSUME((x == v[i].l) | (x >= v[i].l + 1e-6) | (x <= v[i].l - 1e-6)); if (!v[i].rinf) ASSUME((x == v[i].r) | (x >= v[i].r + 1e-6) | (x <= v[i].r - 1e-6)); }
    bool m = false; for (int i = 0; i < 3; ++i) m = m | ((v[i].linf | (x >= v[i].l)) & (v[i].rinf | (x <= v[i].r))); bool inc = d.Includes(x); ASSERT(inc == m, "a union contains exactly its members");
}
HARNESS(h_query) {
    int k1 = sym_choice("k1", 6), k2 = sym_choice("k2", 3); if (k1 == 5) k1 = 6; Iv a = mk(k1, 0), b = mk(k2 == 2 ? 3 : k2, 1); Domain_ d(a.i); d.AddInterval(b.i); double x = sym_choice("pick", 2) ? mem(a, 0) : mem(b, 1); 
    if (x > 1e-9) { ASSERT(d.CanBePositive(true) && d.CanBePositive(false) && d.CanBeNonZero(), "a domain with a positive member can be positive"); ASSERT(!d.IsNegative(true) && !d.IsNegative(false), "and is not negative"); }
    if (x < -1e-9) { ASSERT(d.CanBeNegative(true) && d.CanBeNegative(false) && d.CanBeNonZero(), "a domain with a negative member can be negative"); ASSERT(!d.IsPositive(true) && !d.IsPositive(false), "and is not positive"); }
    if (x == 0) ASSERT(d.CanBeZero() && d.CanBePositive(false) && d.CanBeNegative(false), "a domain containing zero can be zero");
    double c; if (d.IsConstant(&c)) ASSERT(c == x, "a constant domain has that single member"); bool disc = a.l == a.r && !a.linf && !a.rinf && b.l == b.r && !b.linf && !b.rinf; ASSERT(d.IsDiscrete() == disc, "a domain is discrete exactly when all its members are isolated");
    double res; if (d.CanBePositive(true) && !d.CanBeZero() && d.CanBeNegative(true)) { if (d.SmallestPosLb(res, true)) { if (x > 0) ASSERT(x >= res, "no member lies between zero and the smallest positive bound"); } if (d.BiggestNegRb(res, true)) { if (x < 0) ASSERT(x <= res, "no member lies between the biggest negative bound and zero"); } }
}
HARNESS(h_func) {
    int k = sym_choice("k", 3); Iv a = mk(k == 0 ? 0 : k == 1 ? 1 : 4, 0); double x = mem(a, 0); Interval_ all{Bound_(Bound_::minusInfinity_), Bound_(Bound_::plusInfinity_)}; Domain_ d(a.i); auto f = +[](double v) { return 2 * v + 1; }; auto g = +[](double v, double w) { return v * w + 1; };
    Domain_ r = d.ApplyFunc(f, all); ASSERT(r.Includes(2 * x + 1), "applying a function keeps the image of every member"); Domain_ s = d.ApplyFunc2(g, d, all); ASSERT(s.Includes(x * x + 1), "applying a function of two arguments keeps the image of every pair");
}
