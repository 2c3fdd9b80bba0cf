//@ prop C20
//@ src dal/math/interp/interp.cpp dal/math/interp/interp2d.cpp dal/math/interp/interpcubic.cpp dal/math/vectors.cpp dal/storage/archive.cpp dal/string/strings.cpp
//@ bounds linear interpolation over one to four knots (five knot sets, repeated knots included; two knots also symbolic), two-dimensional over grids up to 3x3, cubic splines over three to five knots in four spacings and every pair of boundary orders; function values, boundary values and evaluation points any reals in range, evaluation points inside and outside the knots
//@ run h_linear split=6 budget=60
//@ run h_linear2 split=4 budget=60
//@ run h_cubic split=4 budget=80 ta=20000
//@ run h_spline split=4 budget=80 ta=20000
//@ run h_reject split=4 budget=30
#include <dal/platform/platform.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/interp/interp2d.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <map>
#include "sym.h"
using namespace Dal;
static const double KN[6][4] = {{1, 2, 4, 8}, {-1, 0, 0.5, 3}, {0, 1, 1, 2}, {0.25, 0, 0, 0}, {-2, 2, 0, 0}, {-3, -2.5, 5, 0}}; static const int NK[6] = {4, 4, 4, 1, 2, 3};
static const char* FN[12] = {"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11"};
static double lin(const double* x, const double* f, int n, double z) { // reference; z symbolic: caller compares region by region
    if (z <= x[0]) return f[0]; if (z >= x[n - 1]) return f[n - 1]; for (int i = 1; i < n; ++i) if (z <= x[i] && x[i] > x[i - 1]) return f[i - 1] + (z - x[i - 1]) / (x[i] - x[i - 1]) * (f[i] - f[i - 1]); return f[n - 1]; }
HARNESS(h_linear) {
    int k = sym_choice("knots", 6), n = NK[k]; Vector_<> x, f; double xs[4], fs[4]; for (int i = 0; i < n; ++i) { xs[i] = KN[k][i]; if (k == 5 && i == 1) xs[i] = sym_range("x1", -2.5, 4.5); fs[i] = sym_range(FN[i], -10, 10); x.push_back(xs[i]); f.push_back(fs[i]); }
    double z = sym_range("z", -20, 20); std::unique_ptr<Interp1_> g(Interp::NewLinear(String_("a"), x, f)); double v = (*g)(z), e = lin(xs, fs, n, z);
    for (int i = 0; i < n; ++i) ASSUME((z == xs[i]) | (z - xs[i] > 1e-12) | (xs[i] - z > 1e-12)); if (k == 2) ASSUME(z != 1); CLOSE(v, e, "linear interpolation is linear between knots and flat outside");
    ASSERT(g->IsInBounds(z), "linear interpolation is defined everywhere"); if (k != 5 && k != 2) { for (int i = 0; i < n; ++i) CLOSE((*g)(xs[i]), fs[i], "interpolation passes through the knots"); std::map<double, double> m; for (int i = 0; i < n; ++i) m[xs[i]] = fs[i]; Interp1Linear_ h(String_("b"), m); CLOSE(h(z), v, "the map form gives the same function"); }
}
HARNESS(h_linear2) {
    static const int D[4][2] = {{2, 2}, {1, 3}, {3, 2}, {2, 1}}; int k = sym_choice("grid", 4), n = D[k][0], m = D[k][1]; static const double X[3] = {-1, 0.5, 2}, Y[3] = {0, 1, 4}; Vector_<> x, y; Matrix_<> f(n, m); double fs[3][3]; for (int i = 0; i < n; ++i) x.push_back(X[i]); for (int j = 0; j < m; ++j) y.push_back(Y[j]); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) f(i, j) = fs[i][j] = sym_range(FN[i * m + j], -10, 10);
    double a = sym_range("a", -5, 5), b = sym_range("b", -5, 8); for (int j = 0; j < m; ++j) ASSUME((b == Y[j]) | (b - Y[j] > 1e-12) | (Y[j] - b > 1e-12)); std::unique_ptr<Interp2_> g(Interp::NewLinear2(String_("a"), x, y, f)); double v = (*g)(a, b), col[3]; for (int i = 0; i < n; ++i) col[i] = lin(Y, fs[i], m, b); double e = lin(X, col, n, a);
    CLOSE(v, e, "two-dimensional interpolation is linear in each variable between grid points and flat outside");
}
static double cub(const double* c, double z) { return ((c[3] * z + c[2]) * z + c[1]) * z + c[0]; }
static const double SP[4][5] = {{0, 1, 2, 3, 4}, {0, 0.5, 2, 2.5, 4}, {-1, 0, 0.5, 1.5, 2}, {-1, 1.5, 2, 5, 8}}; static const int SN[4] = {3, 4, 5, 4};
HARNESS(h_cubic) { // boundary data of a cubic: the spline is that cubic everywhere
    int k = sym_choice("knots", 4), n = SN[k], l = 1 + sym_choice("lhs", 3), r = 1 + sym_choice("rhs", 3); int fr = sym_choice("free", 4); double c[4] = {0.5, -1, 2, 1}; c[fr] = sym_range("c", -4, 4);
    Vector_<> x, f; for (int i = 0; i < n; ++i) { x.push_back(SP[k][i]); f.push_back(cub(c, SP[k][i])); } auto d = [&](int o, double z) { return o == 1 ? (3 * c[3] * z + 2 * c[2]) * z + c[1] : o == 2 ? 6 * c[3] * z + 2 * c[2] : 6 * c[3]; };
    std::unique_ptr<Interp1_> g(Interp::NewCubic(String_("a"), x, f, Interp::Boundary_(l, d(l, SP[k][0])), Interp::Boundary_(r, d(r, SP[k][n - 1])))); int seg = sym_choice("seg", n + 1); double z = seg == 0 ? sym_range("z", SP[k][0] - 2, SP[k][0]) : seg == n ? sym_range("z", SP[k][n - 1], SP[k][n - 1] + 2) : sym_range("z", SP[k][seg - 1], SP[k][seg]);
    if (k == 3) { double lo = seg == 0 ? SP[k][0] - 2 : SP[k][seg - 1], hi = seg == n ? SP[k][n - 1] + 2 : SP[k][seg]; z = lo + (hi - lo) * sym_choice("at", 9) / 8.0; }
    double v = (*g)(z), e = cub(c, z) - v; ASSERT((e < 1e-6) & (e > -1e-6), "a cubic spline through a cubic with its boundary derivatives is that cubic, inside and outside the knots"); ASSERT(g->IsInBounds(z) == (z >= SP[k][0] && z <= SP[k][n - 1]), "a spline's bounds are its outer knots");
}
HARNESS(h_spline) { // any data: interpolates, twice continuously differentiable, meets its boundary conditions
    int k = sym_choice("knots", 4), n = SN[k], l = 1 + sym_choice("lhs", 3), r = 1 + sym_choice("rhs", 3); double fs[5], lb = sym_range("lb", -3, 3), rb = sym_range("rb", -3, 3); Vector_<> x, f; for (int i = 0; i < n; ++i) { fs[i] = sym_range(FN[i], -5, 5); x.push_back(SP[k][i]); f.push_back(fs[i]); }
    std::unique_ptr<Interp1_> g(Interp::NewCubic(String_("a"), x, f, Interp::Boundary_(l, lb), Interp::Boundary_(r, rb))); double dl[5], dr[5], sl[5], sr[5], tl = 0, tr = 0;
    for (int i = 0; i + 1 < n; ++i) { double a = SP[k][i], b = SP[k][i + 1], h = (b - a) / 3, v[4]; for (int q = 0; q < 4; ++q) v[q] = q == 3 ? fs[i + 1] : (*g)(a + q * h); CLOSE((*g)(b), fs[i + 1], "a spline passes through its knots"); CLOSE(v[0], fs[i], "a spline passes through its knots"); dr[i] = (-11 * v[0] + 18 * v[1] - 9 * v[2] + 2 * v[3]) / (6 * h); dl[i + 1] = (11 * v[3] - 18 * v[2] + 9 * v[1] - 2 * v[0]) / (6 * h); sr[i] = (2 * v[0] - 5 * v[1] + 4 * v[2] - v[3]) / (h * h); sl[i + 1] = (2 * v[3] - 5 * v[2] + 4 * v[1] - v[0]) / (h * h); double t = (v[3] - 3 * v[2] + 3 * v[1] - v[0]) / (h * h * h); if (i == 0) tl = t; tr = t; }
    auto z = [](double e) { return (e < 1e-6) & (e > -1e-6); }; for (int i = 1; i + 1 < n; ++i) { ASSERT(z(dl[i] - dr[i]), "a spline's slope is continuous at its knots"); ASSERT(z(sl[i] - sr[i]), "a spline's curvature is continuous at its knots"); }
    ASSERT(z((l == 1 ? dr[0] : l == 2 ? sr[0] : tl) - lb), "a spline meets its left boundary condition"); ASSERT(z((r == 1 ? dl[n - 1] : r == 2 ? sl[n - 1] : tr) - rb), "a spline meets its right boundary condition");
}
HARNESS(h_reject) {
    int k = sym_choice("kind", 4); double a = sym_range("a", -5, 5), b = sym_range("b", -5, 5), c = sym_range("c", -5, 5); Vector_<> x, f(3, 1.0); x.push_back(a); x.push_back(b); x.push_back(c); Interp::Boundary_ nb(2, 0.0); std::unique_ptr<Interp1_> g; std::unique_ptr<Interp2_> g2; bool th; Matrix_<> m(3, 3, 1.0), m2(2, 3, 1.0);
    if (k == 0) { th = throws_([&] { g.reset(Interp::NewLinear(String_("a"), x, f)); }); ASSERT(th == !((a <= b) & (b <= c)), "linear knots out of order are rejected, others accepted"); }
    else if (k == 1) { th = throws_([&] { g.reset(Interp::NewCubic(String_("a"), x, f, nb, nb)); }); ASSERT(th == !((a < b) & (b < c)), "spline knots that do not increase are rejected, others accepted"); }
    else if (k == 2) { th = throws_([&] { g2.reset(Interp::NewLinear2(String_("a"), x, f, m)); }); ASSERT(th == !((a <= b) & (b <= c)), "grid knots out of order are rejected, others accepted"); ASSERT(throws_([&] { g2.reset(Interp::NewLinear2(String_("a"), f, f, m2)); }), "a grid whose sizes do not match is rejected"); }
    else { Vector_<> s(2, 1.0), o; o.push_back(0); o.push_back(1); o.push_back(2); ASSERT(throws_([&] { g.reset(Interp::NewLinear(String_("a"), o, s)); }) && throws_([&] { g.reset(Interp::NewCubic(String_("a"), o, s, nb, nb)); }) && throws_([&] { g.reset(Interp::NewCubic(String_("a"), s, s, nb, nb)); }), "sizes that do not match are rejected"); ASSERT(throws_([&] { g.reset(Interp::NewCubic(String_("a"), o, f, Interp::Boundary_(0, a), nb)); }) && throws_([&] { g.reset(Interp::NewCubic(String_("a"), o, f, nb, Interp::Boundary_(4, a))); }), "unknown boundary orders are rejected"); }
}
