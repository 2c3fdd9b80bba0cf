//@ prop C32
//@ src dal/model/ivs.cpp dal/math/analytics/vanilla.cpp dal/math/distribution/black.cpp dal/math/specialfunctions.cpp dal/protocol/optiontype.cpp dal/math/rootfind.cpp dal/math/aad/tape.cpp dal/math/aad/aad.cpp dal/string/strings.cpp dal/math/interp/interpcubic.cpp dal/math/interp/interp.cpp dal/math/vectors.cpp dal/storage/archive.cpp dal/math/matrix/matrixutils.cpp
//@ bounds grids of up to three symbolic points and one added one; call prices for spot, strike and volatility in [0.5, 2] x [0.5, 2] x [0.1, 1] at maturities 1 and 4; four sets of jump parameters at a symbolic spot (ten jumps, as the library sums them); implied volatilities of six prices at every maturity in [0.25, 4]; risk views of up to 2 x 3 symbolic spreads at symbolic points; calibration of three flat surfaces with a symbolic dividend yield on grids of up to five spots and two times
//@ run h_call split=2 budget=60
//@ run h_merton split=4 budget=60
//@ run h_ivol split=2 budget=60
//@ run h_risk split=4 budget=60
//@ run h_surface split=2 budget=60
//@ run h_calib split=6 budget=90
//@ run h_full split=3 budget=60
//@ run h_mivs budget=60
//@ run h_fill split=3 budget=60
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
namespace Dal { using std::max; using std::min; using std::copy; }
#include <dal/math/specialfunctions.hpp>
#include <dal/math/analytics/vanilla.hpp>
#include <dal/model/ivs.hpp>
#include <dal/model/dupire.hpp>
#include "sym.h"
using namespace Dal; using namespace Dal::AAD;
static double black(double f, double k, double sd) { double d = std::log(f / k) / sd - 0.5 * sd; return f * NCDF(d + sd) - k * NCDF(d); }
HARNESS(h_call) {
    bool n = sym_choice("normal", 2); double T = sym_choice("mat", 2) ? 4 : 1, q = T == 4 ? 2 : 1, s = sym_range("s", 0.5, 2), k = sym_range("k", 0.5, 2), v = sym_range("v", 0.1, 1);
    if (n) { double d = (s - k) / (v * q); CLOSE(Bachelier(s, k, v, T), (s - k) * NCDF(d) + v * q * NPDF(d), "a normal call is Bachelier's value at the total volatility"); } else CLOSE(BlackScholes(s, k, v, T), black(s, k, v * q), "a call is the Black value at the total volatility");
}
HARNESS(h_merton) {
    int c = sym_choice("case", 4); double T = c & 1 ? 4 : 1, q = c & 1 ? 2 : 1, s = sym_range("s", 1, 1.03125), k = c & 2 ? 1.25 : 0.75, v = 0.5, m = c & 1 ? -0.125 : 0.0625, d = c & 2 ? 0.25 : 0.125, l = c == 3 ? 0.0 : c == 0 ? 1.5 : 1.0;
    double r = Merton(s, k, v, T, l, m, d); if (c == 3) { CLOSE(r, black(s, k, v * q), "without jumps a jump price is the Black price"); return; }
    double mv = m + 0.5 * d * d, comp = l * (std::exp(mv) - 1), e = 0, w = 1; for (int n = 0; n < 10; ++n) { double f = s * std::exp(n * mv - comp * T), sd = std::sqrt(v * v + n * d * d / T) * q; e += std::exp(-l * T) * w * black(f, k, sd); w = w * (l * T) / (n + 1); } CLOSE(r, e, "a jump price is the Poisson-weighted sum of Black prices, each with the forward and variance of its number of jumps, the drift compensated");
}
HARNESS(h_ivol) {
    bool n = sym_choice("normal", 2); int c = sym_choice("price", 6); static const double K[3] = {0.75, 1.0, 1.5}; double k = K[c % 3], sd = c < 3 ? 0.125 : 0.5, T = sym_range("T", 0.25, 4); OptionType_ call("CALL"); double p = n ? Distribution::BachelierOpt(1.0, sd, k, call) : black(1.0, k, sd); double iv = n ? BachelierIVol(1.0, k, p, T) : BlackScholesIVol(1.0, k, p, T); double g = iv * iv * T - sd * sd; ASSERT((g < 1e-5) & (g > -1e-5), "an implied volatility gives back the price it is implied by, at every maturity");
}
static const char* WN[6] = {"w0", "w1", "w2", "w3", "w4", "w5"};
HARNESS(h_risk) {
    int c = sym_choice("shape", 4); int n = c == 3 ? 1 : 2, m = c == 0 ? 1 : c == 1 ? 2 : c == 2 ? 3 : 2; static const double X[2] = {90, 110}, Y[3] = {0.5, 1, 2}; Vector_<> x(X, X + n), y(Y, Y + m); RiskView_<double> e, r(x, y); ASSERT(e.IsEmpty() && e.Spread(100, 1) == 0 && !r.IsEmpty() && (int)r.Rows() == n && (int)r.Cols() == m, "an empty view has no spread"); double w[2][3]; int z = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { ASSERT(r.Spread(x[i], y[j]) == 0, "spreads start at zero"); w[i][j] = sym_range(WN[z++], -0.1, 0.1); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { r.Bump(i, j, w[i][j] - 0.25); r.Bump(i, j, 0.25); } for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { CLOSE(r.Spread(x[i], y[j]), w[i][j], "a bump is the spread at its own strike and maturity"); CLOSE(r.Risks()(i, j), w[i][j], "bumps are kept where they were made"); }
    static const double KL[3] = {80, 91, 111}, KH[3] = {89, 109, 120}, TL[4] = {0.25, 0.625, 1.125, 2.125}, TH[4] = {0.4375, 0.9375, 1.9375, 3}; int g = sym_choice("gap", 12); double k = sym_range("k", KL[g % 3], KH[g % 3]), t = sym_range("t", TL[g / 3], TH[g / 3]), a = n == 1 ? 0 : g % 3 == 0 ? 0 : g % 3 == 2 ? 1 : (k - 90) / 20, b; int j = 0; if (m == 1) b = 0; else { if (m == 3 && g / 3 >= 2) j = 1; int gl = m == 3 && j ? 2 : 1; b = g / 3 < gl ? 0 : g / 3 > gl ? 1 : (t - y[j]) / (y[j + 1] - y[j]); } auto row = [&](int i) { return m == 1 ? w[i][0] : (1 - b) * w[i][j] + b * w[i][j + 1]; }; CLOSE(r.Spread(k, t), n == 1 ? row(0) : (1 - a) * row(0) + a * row(1), "a spread is bilinear between its nodes and flat beyond them"); ASSERT(r.Strikes() == x && r.Mats() == y, "a view keeps its axes");
}
struct Flat_ : IVS_ { double v; mutable int asked = 0; Flat_(double s, double v0, double r = 0, double q = 0) : IVS_(s, r, q), v(v0) {} double ImpliedVol(double, double) const override { ++asked; return v; } };
HARNESS(h_surface) {
    bool bump = sym_choice("bumped", 2); double s = sym_range("s", 0.5, 2), v = sym_range("v", 0.1, 1), r = sym_range("r", -0.1, 0.1), q = sym_range("q", -0.1, 0.1), w = sym_range("w", 0, 0.1); Flat_ f(s, v, r, q); ASSERT(f.Spot() == s, "a surface has its spot"); Vector_<> x(1, 1.0), y(1, 1.0); RiskView_<double> rv(x, y); rv.Bump(0, 0, w); const RiskView_<double>* p = bump ? &rv : nullptr; double u = bump ? v + w : v; CLOSE(f.Call(1.5, 4.0, p), black(s, 1.5, u * 2), "a surface's call is the Black price at its volatility plus the spread");
    double lv = f.LocalVol(1.5, 4.0, p); double dt = 4e-4, ds = 1.5e-4; auto C = [&](double k, double t) { return f.Call(k, t, p); }; double ct = (C(1.5, 4 + dt) - C(1.5, 4 - dt)) / (2 * dt), ck = (C(1.5 + ds, 4) - C(1.5 - ds, 4)) / (2 * ds), ckk = (C(1.5 + ds, 4) + C(1.5 - ds, 4) - 2 * C(1.5, 4)) / (ds * ds); double n = 2 * (ct + q * C(1.5, 4) + (r - q) * ck); ASSUME((ckk > 0.01) & (n > 0.001)); CLOSE(lv * lv * 2.25 * ckk, n, "local variance is Dupire's ratio of the price's derivatives");
}
HARNESS(h_calib) {
    int c = sym_choice("grid", 6); static const int NS[6] = {1, 2, 3, 5, 2, 2}; static const double G[6][5] = {{1}, {0.5, 1.5}, {0.5, 1, 1.5}, {0.25, 0.75, 1, 1.25, 1.75}, {0.125, 0.25}, {3, 4}}; int n = NS[c]; Vector_<> x(G[c], G[c] + n); static const double V[3] = {0.0625, 0.25, 0.5}; double v = V[sym_choice("vol", 3)], T = sym_choice("mat", 2) ? 1 : 0.25, q = sym_range("q", 0, 0.0625); Flat_ f(1.0, v, 0, q); RiskView_<double> rv; Vector_<> o(n, -7.0); DupireCalibMaturity(f, T, x.begin(), x.end(), o.begin(), rv);
    double sd = f.Call(1.0, T) * 2.506628274631 * 2.5; int il = 0, ih = n - 1; while (il < n && x[il] < 1 - sd) ++il; while (ih >= 0 && x[ih] > 1 + sd) --ih; for (int i = 0; i < n; ++i) { double e = f.LocalVol(il > ih ? 1.0 : x[i < il ? il : i > ih ? ih : i], T, &rv); CLOSE(o[i], e, "a calibrated volatility is Dupire's within two and a half deviations and flat beyond"); }
}

HARNESS(h_full) {
    int c = sym_choice("times", 3); static const double V[2] = {0.25, 0.5}; Flat_ f(1.0, V[sym_choice("vol", 2)], 0, sym_range("q", 0, 0.0625)); double s0[3] = {0.75, 1.0, 1.75}, t0[2] = {0.5, 2}; Vector_<> x(s0, s0 + 3), y(t0, t0 + (c == 2 ? 1 : 2)); double dt = c == 1 ? 4 : 1; auto r = DupireCalib(f, x, 0.25, y, dt);
    static const double ES[5] = {0.75, 1, 1.25, 1.5, 1.75}, ET[3][3] = {{0.5, 1, 2}, {0.5, 2, 4}, {0.5, 1}}; int nt = c == 2 ? 2 : 3; ASSERT((int)r.spots_.size() == 5 && (int)r.times_.size() == nt && r.lVols_.Rows() == 5 && r.lVols_.Cols() == nt, "a calibration grid has the given points, filled to the largest step"); for (int i = 0; i < 5; ++i) CLOSE(r.spots_[i], ES[i], "grid spots are the given ones and evenly between"); for (int j = 0; j < nt; ++j) { CLOSE(r.times_[j], ET[c][j], "grid times are the given ones and the step"); Vector_<> o(5); RiskView_<double> rv; DupireCalibMaturity(f, r.times_[j], r.spots_.begin(), r.spots_.end(), o.begin(), rv); for (int i = 0; i < 5; ++i) CLOSE(r.lVols_(i, j), o[i], "each column of a calibration is that of its own maturity"); }
}
HARNESS(h_fill) {
    int n = 1 + sym_choice("points", 3), extra = sym_choice("extra", 2); double x[3], a = 0; static const char* N[3] = {"x0", "x1", "x2"}; for (int i = 0; i < n; ++i) { double g = i ? sym_range(N[i], 0.0625, 2.5) : sym_range(N[0], 0, 1); a += g; x[i] = a; } Vector_<> o(x, x + n); double e = sym_range("e", 0, 3); Vector_<> r = extra ? FillData(o, 1.0, 0.03125, &e, &e + 1) : FillData(o, 1.0, 0.03125); int m = (int)r.size(); ASSERT(m >= n, "filling removes nothing");
    for (int i = 0; i + 1 < m; ++i) ASSERT((r[i] < r[i + 1]) & (r[i + 1] - r[i] <= 1 + 1e-9), "filled points increase by no more than the largest step"); for (int i = 0; i < n; ++i) { bool in = false; for (int j = 0; j < m; ++j) in |= r[j] == x[i]; ASSERT(in, "every given point is kept"); } bool in = !extra; for (int j = 0; j < m; ++j) in |= (r[j] - e <= 0.03125) & (e - r[j] <= 0.03125); ASSERT(in, "every added point is there, or one within the smallest step"); if (!extra) { ASSERT((r[0] == x[0]) & (r[m - 1] == x[n - 1]), "filling starts and ends with the given points"); int cnt = 1; for (int i = 1; i < n; ++i) { double g = x[i] - x[i - 1]; ASSUME(((g < 0.999) | (g > 1.001)) & ((g < 1.999) | (g > 2.001))); } for (int i = 1; i < n; ++i) cnt += x[i] - x[i - 1] > 2 ? 3 : x[i] - x[i - 1] > 1 ? 2 : 1; ASSERT(m == cnt, "no more points are added than needed"); }
}
HARNESS(h_mivs) {
    int c = sym_choice("case", 4); static const double K[4] = {0.75, 1, 1.25, 1}, T[4] = {1, 4, 0.25, 1}; double d = c == 3 ? 0.0 : 0.125, l = c == 3 ? 0.0 : 0.25; MertonIVS_ m(1.0, 0.25, l, -0.125, d); double iv = m.ImpliedVol(K[c], T[c]), e = BlackScholes(1.0, K[c], iv, T[c]) - Merton(1.0, K[c], 0.25, T[c], l, -0.125, d); ASSERT(iv > 0 && e < 1e-6 && e > -1e-6, "a jump surface's volatility gives back the jump price"); if (c == 3) ASSERT(iv > 0.2499 && iv < 0.2501, "without jumps it is the diffusion's own volatility");
}
