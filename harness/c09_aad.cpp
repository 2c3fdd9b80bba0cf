//@ prop C09
//@ src dal/math/aad/expr.cpp dal/math/aad/tape.cpp dal/math/aad/aad.cpp dal/math/specialfunctions.cpp
//@ bounds programs of two operations (each any of 35, erfc of a transcendental excepted, operator/operand shapes) feeding a third that combines the results, inputs any reals in [0.5, 2] (single operations also in [-2,-0.5] where defined); intermediate values and derivatives below 1000 in size; composite expressions of up to 6 leaves
//@ run h_op split=8 budget=100
//@ run h_pair split=8 budget=140
//@ run h_expr split=6 budget=100
//@ run h_cmp budget=60
#include <dal/platform/platform.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/specialfunctions.hpp>
#include "sym.h"
using namespace Dal; using namespace Dal::AAD;
// forward-mode reference
struct Du { double v, a, b; };
static Du mk(double v, double da, double db) { return Du{v, da, db}; }
static Du c2(double v, const Du& x, double dx, const Du& y, double dy) { return Du{v, dx * x.a + dy * y.a, dx * x.b + dy * y.b}; }
static Du c1(double v, const Du& x, double dx) { return Du{v, dx * x.a, dx * x.b}; }
static const int NOP = 35; static const double K = 1.25;
static void op(int k, const Number_& x, const Number_& y, const Du& p, const Du& q, Number_& r, Du& e) {
    switch (k) {
    case 0: r = x + y; e = c2(p.v + q.v, p, 1, q, 1); break;
    case 1: r = x - y; e = c2(p.v - q.v, p, 1, q, -1); break;
    case 2: r = x * y; e = c2(p.v * q.v, p, q.v, q, p.v); break;
    case 3: r = x / y; e = c2(p.v / q.v, p, 1 / q.v, q, -p.v / (q.v * q.v)); break;
    case 4: r = x + K; e = c1(p.v + K, p, 1); break;
    case 5: r = K + x; e = c1(p.v + K, p, 1); break;
    case 6: r = x - K; e = c1(p.v - K, p, 1); break;
    case 7: r = K - x; e = c1(K - p.v, p, -1); break;
    case 8: r = x * K; e = c1(p.v * K, p, K); break;
    case 9: r = K * x; e = c1(p.v * K, p, K); break;
    case 10: r = x / K; e = c1(p.v / K, p, 1 / K); break;
    case 11: r = K / x; e = c1(K / p.v, p, -K / (p.v * p.v)); break;
    case 12: r = -x; e = c1(-p.v, p, -1); break;
    case 13: r = +x; e = p; break;
    case 14: r = max(x, y); ASSUME(p.v != q.v); e = p.v > q.v ? p : q; break;
    case 15: r = min(x, y); ASSUME(p.v != q.v); e = p.v < q.v ? p : q; break;
    case 16: r = max(x, K); ASSUME(p.v != K); e = p.v > K ? p : mk(K, 0, 0); break;
    case 17: r = max(K, x); ASSUME(p.v != K); e = p.v > K ? p : mk(K, 0, 0); break;
    case 18: r = min(x, K); ASSUME(p.v != K); e = p.v < K ? p : mk(K, 0, 0); break;
    case 19: r = min(K, x); ASSUME(p.v != K); e = p.v < K ? p : mk(K, 0, 0); break;
    case 20: r = exp(x); { double v = std::exp(p.v); e = c1(v, p, v); } break;
    case 21: r = log(x); e = c1(std::log(p.v), p, 1 / p.v); break;
    case 22: r = sqrt(x); { double v = std::sqrt(p.v); e = c1(v, p, 0.5 / v); } break;
    case 23: r = fabs(x); ASSUME(p.v != 0); e = p.v > 0 ? p : c1(-p.v, p, -1); break;
    case 24: r = pow(x, y); { double v = std::pow(p.v, q.v); e = c2(v, p, q.v * v / p.v, q, std::log(p.v) * v); } break;
    case 25: r = pow(x, K); { double v = std::pow(p.v, K); e = c1(v, p, K * v / p.v); } break;
    case 26: r = pow(K, x); { double v = std::pow(K, p.v); e = c1(v, p, std::log(K) * v); } break;
    case 27: r = erfc(x); { double g = std::exp(-p.v * p.v); ASSUME(g <= 1); e = c1(std::erfc(p.v), p, -1.1283791670955126 * g); } break;
    case 28: r = x; r += y; e = c2(p.v + q.v, p, 1, q, 1); break;
    case 29: r = x; r -= y; e = c2(p.v - q.v, p, 1, q, -1); break;
    case 30: r = x; r *= y; e = c2(p.v * q.v, p, q.v, q, p.v); break;
    case 31: r = x; r /= y; e = c2(p.v / q.v, p, 1 / q.v, q, -p.v / (q.v * q.v)); break;
    case 32: r = x; r += K; r *= K; e = c1((p.v + K) * K, p, K); break;
    case 34: r = NPDF(x); { double v = Dal::NPDF(p.v); e = c1(v, p, -p.v * v); } break;
    case 33: r = x; r -= K; r /= K; e = c1((p.v - K) / K, p, 1 / K); break;
    }
}
static void lim(const Du& d) { ASSUME(d.v < 1e3 && d.v > -1e3); ASSUME(d.a < 1e3 && d.a > -1e3); ASSUME(d.b < 1e3 && d.b > -1e3); }
static Tape_* fresh() { Tape_* t = new Tape_(); Number_::SetTape(*t); return t; }
static void cmp(Number_& a, Number_& b, Number_& r, const Du& e) {
    CLOSE(r.value(), e.v, "the value is that of the plain computation"); r.PropagateToStart();
    CLOSE(a.Adjoint(), e.a, "the adjoint of the first input is its derivative"); CLOSE(b.Adjoint(), e.b, "the adjoint of the second input is its derivative");
}
HARNESS(h_op) {
    int k = sym_choice("op", NOP); int alias = sym_choice("alias", 2); int sg = sym_choice("signs", 4); if ((k == 21 || k == 22 || (k >= 24 && k <= 25)) && (sg & 1)) sg &= 2; if (k == 24 && alias) sg = 0;
    double u = sym_range("a", 0.5, 2), w = sym_range("b", 0.5, 2); if (sg & 1) u = -u; if (sg & 2) w = -w; fresh(); Number_ a(u), b(w), r; Du p = mk(u, 1, 0), q = mk(w, 0, 1), e;
    if (alias) op(k, a, a, p, p, r, e); else op(k, a, b, p, q, r, e);
    cmp(a, b, r, e);
}
HARNESS(h_pair) {
    int k = sym_choice("first", NOP), m = sym_choice("second", NOP); if (m == 27 && k >= 20) m = 0; double u = sym_range("a", 0.5, 2), w = sym_range("b", 0.5, 2); fresh(); Number_ a(u), b(w), x, r, z; Du p = mk(u, 1, 0), q = mk(w, 0, 1), e, f, g;
    op(k, a, b, p, q, x, e); lim(e); if (m == 11 || (m >= 21 && m <= 25) ) ASSUME(e.v > 0.1); op(m, x, b, e, q, r, f); lim(f); z = r * x; g = c2(f.v * e.v, f, e.v, e, f.v);
    cmp(a, b, z, g);
}
HARNESS(h_expr) {
    int k = sym_choice("shape", 6); double u = sym_range("a", 0.5, 2), w = sym_range("b", 0.5, 2); fresh(); Number_ a(u), b(w), r; Du e;
    switch (k) {
    case 0: r = a * b + a / b - 3.0 * a; e = mk(u * w + u / w - 3 * u, w + 1 / w - 3, u - u / (w * w)); break;
    case 1: r = (a + b) * (a - b) * a; e = mk((u * u - w * w) * u, 3 * u * u - w * w, -2 * u * w); break;
    case 2: r = exp(a * b) * a - log(a); { double v = std::exp(u * w); e = mk(v * u - std::log(u), v + u * w * v - 1 / u, u * u * v); } break;
    case 3: r = sqrt(a * a + b * b); { double v = std::sqrt(u * u + w * w); e = mk(v, u / v, w / v); } break;
    case 4: r = max(a * b, a + b) + min(a * b, a + b); e = mk(u * w + u + w, w + 1, u + 1); ASSUME(u * w != u + w); break;
    case 5: r = -(a - 2.0 * b) / (1.0 + a); e = mk(-(u - 2 * w) / (1 + u), -(1 + 2 * w) / ((1 + u) * (1 + u)), 2 / (1 + u)); break;
    }
    cmp(a, b, r, e);
}
HARNESS(h_cmp) {
    double u = sym_f64("a"), w = sym_f64("b"); fresh(); Number_ a(u), b(w);
    ASSERT((a < b) == (u < w) && (a > b) == (u > w) && (a <= b) == (u <= w) && (a >= b) == (u >= w) && (a == b) == (u == w) && (a != b) == (u != w), "numbers compare by value");
    ASSERT((a < w) == (u < w) && (a > w) == (u > w) && (a <= w) == (u <= w) && (a >= w) == (u >= w) && (a == w) == (u == w) && (a != w) == (u != w), "numbers compare with plain doubles by value");
    ASSERT((u < b) == (u < w) && (u > b) == (u > w) && (u <= b) == (u <= w) && (u >= b) == (u >= w) && (u == b) == (u == w) && (u != b) == (u != w), "plain doubles compare with numbers by value");
    ASSERT((double)a == u, "conversion gives the value");
}
