//@ prop C27
//@ src dal/math/rootfind.cpp dal/math/pde/pde.cpp dal/math/pde/fd1d.cpp dal/math/pde/finitedifference.cpp dal/math/pde/meshers/concentrating1dmesher.cpp dal/math/smooth.cpp dal/math/optimization/underdetermined.cpp dal/math/matrix/matrixarithmetic.cpp dal/math/matrix/banded.cpp dal/math/matrix/cholesky.cpp dal/math/matrix/decompositions.cpp dal/math/matrix/sparse.cpp dal/math/matrix/bcg.cpp dal/utilities/numerics.cpp dal/utilities/dictionary.cpp dal/math/cell.cpp dal/math/cellutils.cpp dal/math/interp/interp.cpp
//@ bounds root searches: every function given by its values, up to four evaluations after the bracket and four while hunting; finite differences: meshes of 3..5 points with symbolic spacings, drifts, variances, rates, values and step, theta 0, 1/2, 1 and symbolic; smoothing of 2..4 points with symbolic ordinates, abscissae, weights and penalty; underdetermined searches: two unknowns and one equation (all coefficients symbolic) and up to four evaluations of an arbitrary function
//@ run h_brent split=4 budget=90 ta=5000
//@ run h_hunt split=6 budget=60 ta=5000
//@ run h_deriv split=3 budget=30
//@ run h_roll split=9 budget=60 ta=8000
//@ run h_mesh split=3 budget=60 ta=5000
//@ run h_map budget=30
//@ run h_smooth split=3 budget=60 ta=8000
//@ run h_find split=3 budget=60 ta=8000
//@ run h_find3 tier=thorough budget=300 ta=20000
#include <dal/platform/platform.hpp>
#include <dal/math/rootfind.hpp>
#include <dal/math/smooth.hpp>
#include <dal/math/pde/pde.hpp>
#include <dal/math/pde/fd1d.hpp>
#include <dal/math/pde/finitedifference.hpp>
#include <dal/math/pde/meshers/uniform1dmesher.hpp>
#include <dal/math/pde/meshers/concentrating1dmesher.hpp>
#include <dal/math/optimization/underdetermined.hpp>
#include <dal/math/matrix/sparse.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/matrix/cholesky.hpp>
#include "sym.h"
using namespace Dal;
static const char* NM[] = {"v0","v1","v2","v3","v4","v5","v6","v7","v8","v9","v10","v11","v12","v13","v14","v15","v16","v17","v18","v19","v20","v21","v22","v23","v24","v25","v26","v27","v28","v29"};
static int nmc;
static double S(double lo, double hi) { return sym_range(NM[nmc++], lo, hi); }
// ---- bracketed search
HARNESS(h_brent) {
    nmc = 0; int n = 1 + sym_choice("evaluations", 4); bool up = sym_choice("increasing", 2) == 1, flip = sym_choice("swap", 2) == 1;
    static const double MAG[3] = {0.25, 1.0, 5.0}; bool free = n <= 2; double lo = -1.0, hi = 2.0, sg = up ? 1.0 : -1.0, yl = free ? S(0.1, 10) : MAG[sym_choice("yl", 3)], yh = free ? S(0.1, 10) : 1.5;
    auto L = std::make_pair(lo, -sg * yl), H = std::make_pair(hi, sg * yh); BracketedBrent_ b(flip ? H : L, flip ? L : H, 1e-8); ASSERT(b.BracketWidth() == hi - lo, "the first bracket is the one given");
    for (int k = 0; k < n; ++k) {
        double x = b.NextX(); ASSERT(x >= lo && x <= hi, "every trial point lies inside the current bracket");
        bool pos = sym_choice(k == 0 ? "s0" : k == 1 ? "s1" : k == 2 ? "s2" : "s3", 2) == 1; double y = free || k == n - 1 ? S(0.01, 10) : MAG[sym_choice(k == 0 ? "y0" : k == 1 ? "y1" : "y2", 3)] * 0.5; Converged_ c(1e-8, 1e-6); bool conv = c(b, pos ? y : -y);
        if (pos == up) hi = x; else lo = x;
        CLOSE(b.BracketWidth(), hi - lo, "the bracket keeps exactly the two closest points with opposite signs");
        if (conv) ASSERT(hi - lo < 1e-8 + 1e-12, "a search has not converged while neither tolerance is met");
    }
}
HARNESS(h_hunt) {
    nmc = 0; int hc = sym_choice("case", 6); static const double ST[3] = {0.05, 0.5, 1.0}; double g = sym_choice("guess", 2) * 1.5 - 0.75, st = ST[hc % 3], sg = hc < 3 ? 1.0 : -1.0; Brent_ b(g, 1e-8, st); double xs[6], ys[6]; int n = 0, best = 0; bool done = false;
    for (; n < 4; ++n) {
        xs[n] = b.NextX(); if (n == 0) ASSERT(xs[0] == g, "a hunt starts at the guess"); done = n > 0 && sym_choice(n == 1 ? "c1" : n == 2 ? "c2" : n == 3 ? "c3" : "c4", 2) == 1; double m = S(0.01, 10); ys[n] = done ? -sg * m : sg * m; b.PutY(ys[n]);
        if (done) break; ASSERT(b.BracketWidth() == Dal::INF, "a hunt goes on while every value has the same sign"); bool better = n == 0 || fabs(ys[n]) <= fabs(ys[best]); double nx = b.NextX(); ASSERT(nx != xs[n] && nx != xs[best], "a hunt never tries the same point again");
        if (n > 0) { if (better) ASSERT((nx - xs[n]) * (xs[n] - xs[best]) > 0, "a hunt that improves keeps its direction"); else ASSERT((nx - xs[best]) * (xs[n] - xs[best]) < 0, "a hunt that gets worse turns back past its best point"); ASSERT(fabs(nx - xs[better ? n : best]) > 2.7 * fabs(xs[n] - xs[best]), "the steps of a hunt grow"); }
        if (better) best = n;
    }
    if (!done) return; CLOSE(b.BracketWidth(), fabs(xs[n] - xs[best]), "a hunt ends with the bracket between the first point of the other sign and the best one before it"); double lo = xs[n] < xs[best] ? xs[n] : xs[best], hi = xs[n] < xs[best] ? xs[best] : xs[n], x = b.NextX(); ASSERT(x >= lo && x <= hi, "after the hunt the search stays inside the bracket");
}
// ---- finite differences
struct M_ : FDM1DMesher_ { explicit M_(const Vector_<>& x) : FDM1DMesher_(x.size()) { locations_ = x; for (int i = 0; i + 1 < Size(); ++i) dplus_[i] = dminus_[i + 1] = x[i + 1] - x[i]; } };
static Vector_<> grid(int n) { Vector_<> x(n); x[0] = S(-5, 5); for (int i = 1; i < n; ++i) x[i] = x[i - 1] + S(0.1, 2); return x; }
HARNESS(h_deriv) {
    nmc = 0; int n = 3 + sym_choice("n", 3); Vector_<> x = grid(n), f(n), d, dd; M_ mesh(x); double a = S(-3, 3), b = S(-3, 3), c = S(-3, 3); for (int i = 0; i < n; ++i) f[i] = a + b * x[i] + c * x[i] * x[i];
    std::unique_ptr<Sparse::TriDiagonal_> dx(PDE::Dx(mesh)), dxx(PDE::Dxx(mesh)); dx->MultiplyLeft(f, &d); dxx->MultiplyLeft(f, &dd); ASSERT((int)d.size() == n && (int)dd.size() == n, "the difference operators act on the whole mesh");
    for (int i = 1; i + 1 < n; ++i) { CLOSE(d[i], b + 2 * c * x[i], "the first difference is exact for quadratics on every mesh"); CLOSE(dd[i], 2 * c, "the second difference is exact for quadratics on every mesh"); }
    ASSERT(d[0] == 0 && d[n - 1] == 0 && dd[0] == 0 && dd[n - 1] == 0, "boundary rows are empty");
    ASSERT(throws_([&] { M_ two({0.0, 1.0}); std::unique_ptr<Sparse::TriDiagonal_> t(PDE::Dx(two)); }), "a mesh without interior points is rejected");
}
HARNESS(h_roll) {
    nmc = 0; int k = sym_choice("case", 9), n = 3 + k % 3, th = k / 3; bool full = n == 3 || th == 0; Vector_<> x; if (full) x = grid(n); else { x.Resize(n); static const double X[2][5] = {{-1, -0.5, 0.25, 0.5, 1.5}, {0, 0.25, 0.5, 0.75, 1}}; int g = sym_choice("grid", 2); for (int i = 0; i < n; ++i) x[i] = X[g][i]; } M_ mesh(x); PDE::FD1D_ fd(mesh); double dt = full ? S(0.01, 0.5) : 0.125, theta = th == 0 ? 0.0 : th == 1 ? 1.0 : 0.5; Vector_<> old(n), mu(n), var(n), rr(n); int fr = full ? 0 : 1 + sym_choice("free", n - 2);
    for (int i = 0; i < n; ++i) { old[i] = S(-10, 10); mu[i] = full ? S(-0.05, 0.05) : 0.03125 * (i - 1.5); var[i] = full || i == fr ? S(0.1, 0.4) : 0.125 + 0.0625 * i; rr[i] = full ? S(0.0, 0.1) : 0.015625 * (1 + i); }
    fd.R() = rr; fd.Mu() = mu; fd.Var() = var; fd.Init(); Vector_<> v(old); fd.RollBwd(dt, theta, v);
    auto L = [&](const Vector_<>& f, int i) { double h = x[i] - x[i - 1], p = x[i + 1] - x[i], sl = (f[i] - f[i - 1]) / h, su = (f[i + 1] - f[i]) / p; return mu[i] * (sl * p + su * h) / (h + p) + var[i] * (su - sl) / (h + p) - rr[i] * f[i]; };
    CLOSE(v[0], old[0], "the boundary value at the low end is held"); CLOSE(v[n - 1], old[n - 1], "the boundary value at the high end is held");
    for (int i = 1; i + 1 < n; ++i) CLOSE(v[i] - theta * dt * L(v, i), old[i] + (1 - theta) * dt * L(old, i), "a backward step solves the theta scheme of drift, diffusion and discounting at every interior point");
}
HARNESS(h_mesh) {
    nmc = 0; int k = sym_choice("case", 3), n = 3 + sym_choice("n", 3); double s = S(-5, 5), w = S(0.5, 5), e = s + w; std::unique_ptr<FDM1DMesher_> m; static const double FR[6] = {0, 0.13, 0.3, 0.5, 0.77, 1.0}; double c = s + w * (k ? FR[sym_choice("where", 6)] : 0.5); if (k == 2) n = n == 4 ? 5 : n;
    if (k == 0) m = std::make_unique<Uniform1DMesher_>(s, e, n); else m = std::make_unique<Concentrating1dMesher_>(s, e, n, std::make_pair(c, 0.1), k == 2);
    ASSERT(m->Size() == n && (int)m->Locations().size() == n, "a mesh has the size asked for"); CLOSE(m->Location(0), s, "a mesh starts at its start"); CLOSE(m->Location(n - 1), e, "a mesh ends at its end");
    for (int i = 0; i + 1 < n; ++i) { ASSERT(m->Location(i) < m->Location(i + 1), "mesh points increase strictly"); CLOSE(m->DPlus(i), m->Location(i + 1) - m->Location(i), "the forward spacing is the distance to the next point"); CLOSE(m->DMinus(i + 1), m->DPlus(i), "the backward spacing is the distance to the previous point"); if (k == 0) CLOSE(m->DPlus(i), w / (n - 1), "a uniform mesh has equal spacings"); }
    if (k == 2) { bool hit = false; for (int i = 0; i < n; ++i) if (fabs(m->Location(i) - c) < 1e-7) hit = true; ASSERT(hit, "the concentration point is a mesh point when required"); }
}
HARNESS(h_map) {
    nmc = 0; bool id = sym_choice("identity", 2) == 1; double w = S(0.5, 5), rg = id ? 1.0 : sym_choice("range", 2) ? 1.25 : 2.6, y = w * S(-1, 1); std::unique_ptr<PDE::CoordinateMap_> m(id ? PDE::NewIdentityMap() : PDE::NewSinhMap(w, rg)); double d, dd, d0, x = (*m)(y, &d, &dd), z = (*m)(0.0, &d0);
    ASSERT(z == 0.0, "the map keeps the origin"); CLOSE(d0, 1.0, "the map has unit slope at the origin"); if (id) { ASSERT(x == y && d == 1 && dd == 0 && m->Y(y) == y, "a unit range is the identity"); return; }
    double lam = w / sqrt(rg * rg - 1); CLOSE(d * d, 1.0 + x * x / (lam * lam), "slope and value satisfy the hyperbola"); CLOSE(dd * lam * lam, x, "the curvature is the value over the squared scale"); double back = (*m)(m->Y(y)); CLOSE(back, y, "the inverse map undoes the map");
    CLOSE((*m)(y) + (*m)(-y), 0.0, "the map is odd");
    ASSERT(throws_([&] { delete PDE::NewSinhMap(-1.0, 2.0); }) && throws_([&] { delete PDE::NewSinhMap(1.0, 0.5); }), "a bad width or range is rejected");
}
// ---- smoothing
HARNESS(h_smooth) {
    nmc = 0; int n = 2 + sym_choice("n", 3); bool wt = sym_choice("weights", 2) == 1; Vector_<> x = grid(n), y(n), w; for (int i = 0; i < n; ++i) y[i] = S(-10, 10); if (wt) for (int i = 0; i < n; ++i) w.push_back(S(0.5, 3)); double lam = S(0.0, 4);
    Vector_<> z = SmoothedVals(x, y, w, lam); ASSERT((int)z.size() == n, "one smoothed value per point");
    for (int i = 0; i < n; ++i) { double g = (wt ? w[i] : 1.0) * (z[i] - y[i]); if (i) g += lam * (z[i] - z[i - 1]) / (x[i] - x[i - 1]); if (i + 1 < n) g += lam * (z[i] - z[i + 1]) / (x[i + 1] - x[i]); CLOSE(g, 0.0, "smoothed values minimise squared misfit plus the penalty on their slopes"); }
    ASSERT(throws_([&] { SmoothedVals({1.0, 0.0}, {1.0, 2.0}); }) && throws_([&] { SmoothedVals({1.0, 2.0}, {1.0}); }), "unordered or mismatched points are rejected");
}
// ---- underdetermined search
struct Lin_ : Underdetermined::Function_ { double a, b, c; [[nodiscard]] Vector_<> F(const Vector_<>& x) const override { return Vector_<>(1, a * x[0] + b * x[1] - c); } void Gradient(const Vector_<>&, const Vector_<>&, Matrix_<>* j) const override { j->Resize(1, 2); (*j)(0, 0) = a; (*j)(0, 1) = b; } };
struct Def_ : Underdetermined::Function_ { double a, b, c; [[nodiscard]] Vector_<> F(const Vector_<>& x) const override { return {a * x[0] + b * x[1] - c, b * x[0] - c * x[1]}; } };
struct Any_ : Underdetermined::Function_ { mutable int n = 0; mutable Vector_<> last; [[nodiscard]] Vector_<> F(const Vector_<>& x) const override { last = Vector_<>(1, S(-4, 4)); ++n; return last; } void Gradient(const Vector_<>&, const Vector_<>&, Matrix_<>* j) const override { j->Resize(1, 2); (*j)(0, 0) = 1.0; (*j)(0, 1) = 0.5; } };
static Underdetermined::Controls_ controls(int ne, int nr) { Dictionary_ d; d.Insert("maxEvaluations", Cell_((double)ne)); d.Insert("maxRestarts", Cell_((double)nr)); return Underdetermined::Controls_(d); }
struct Diag_ : Sparse::SymmetricDecomposition_ { [[nodiscard]] int Size() const override { return 2; } void XMultiply_af(const Vector_<>& x, Vector_<>* b) const override { *b = {2 * x[0], 0.5 * x[1]}; } void XSolve_af(const Vector_<>& b, Vector_<>* x) const override { *x = {0.5 * b[0], 2 * b[1]}; } Vector_<>::const_iterator MakeCorrelated(Vector_<>::const_iterator i, Vector_<>*) const override { return i; } };
static void find(bool deep) {
    nmc = 0; int k = deep ? 1 : sym_choice("case", 3); std::unique_ptr<Sparse::SymmetricDecomposition_> w(new Diag_);
    if (k == 0) {
        Lin_ f; f.a = S(0.5, 3); f.b = S(-3, -0.5); f.c = S(-2, 2); Vector_<> g = {S(-2, 2), S(-2, 2)}; Vector_<> tol(1, 0.01); Vector_<> r = Underdetermined::Find(f, g, tol, *w, controls(4, 2));
        CLOSE(f.a * r[0] + f.b * r[1], f.c, "a linear equation is met after one step"); double p = r[0] - g[0], q = r[1] - g[1], wp = 2 * p, wq = 0.5 * q; CLOSE(wp * f.b - wq * f.a, 0.0, "the step is the one of least weight among all that meet the equation");
    } else if (k == 1) {
        Any_ f; Vector_<> g = {0.0, 0.0}, tol(1, 0.5), r; int ne = deep ? 3 : 2; bool t = throws_([&] { r = Underdetermined::Find(f, g, tol, *w, controls(ne, 2)); });
        ASSERT(f.n <= ne, "a search never evaluates more often than allowed"); if (!t) ASSERT(fabs(f.last[0]) < 0.5, "a search returns only a point at which every tolerance is met");
    } else {
        Def_ f; f.a = S(-3, 3); f.b = S(-3, 3); f.c = S(-3, 3); Vector_<> x = {S(-2, 2), S(-2, 2)}; Matrix_<> j; const Underdetermined::Function_& base = f; base.Gradient(x, f.F(x), &j); ASSERT(j.Rows() == 2 && j.Cols() == 2, "one gradient row per equation, one column per unknown");
        CLOSE(j(0, 0), f.a, "bumped gradients of linear functions are exact"); CLOSE(j(0, 1), f.b, "bumped gradients of linear functions are exact"); CLOSE(j(1, 0), f.b, "bumped gradients of linear functions are exact"); CLOSE(j(1, 1), -f.c, "bumped gradients of linear functions are exact");
    }
}
HARNESS(h_find) { find(false); }
HARNESS(h_find3) { find(true); }
