//@ prop C22
//@ src dal/math/distribution/black.cpp dal/math/specialfunctions.cpp dal/protocol/optiontype.cpp dal/math/aad/expr.cpp dal/math/aad/tape.cpp dal/math/aad/aad.cpp dal/math/rootfind.cpp dal/string/strings.cpp dal/math/interp/interpcubic.cpp dal/math/interp/interp.cpp dal/math/vectors.cpp dal/storage/archive.cpp
//@ bounds forward, strike and total volatility any reals in [0.5, 2] x [0.5, 2] x [0.1, 1] for Black, forward and strike in [-2, 2] for Bachelier; payoffs for all reals in [-100, 100]; derivatives for log-moneyness within 9 total volatilities
//@ run h_payout split=3 budget=40
//@ run h_parity split=2 budget=60
//@ run h_delta split=3 budget=80 ta=20000
//@ run h_vega split=3 budget=80 ta=20000
//@ run h_zero split=4 budget=60
//@ run h_ncdf split=3 budget=60
#include <dal/platform/platform.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/math/distribution/black.hpp>
#include "sym.h"
using namespace Dal;
static OptionType_ ty(int k) { return OptionType_(k == 0 ? OptionType_::Value_::CALL : k == 1 ? OptionType_::Value_::PUT : OptionType_::Value_::STRADDLE); }
HARNESS(h_payout) {
    int k = sym_choice("type", 3); double s = sym_range("s", -100, 100), x = sym_range("x", -100, 100); double p = ty(k).Payout(s, x); double c = s > x ? s - x : 0.0, q = x > s ? x - s : 0.0;
    CLOSE(p, k == 0 ? c : k == 1 ? q : c + q, "a payout is the positive part of the difference the option type says");
    static const char* N[3] = {"call", "put", "straddle"}; static const char* A[3] = {"c", "P", "C+P"}; ASSERT(OptionType_(String_(N[k])) == ty(k) && OptionType_(String_(A[k])) == ty(k), "option types read from their names and abbreviations");
}
HARNESS(h_parity) {
    bool bl = sym_choice("black", 2) == 1; double f = sym_range("f", bl ? 0.5 : -2, 2), x = sym_range("x", bl ? 0.5 : -2, 2), v = sym_range("v", 0.1, 1); double c, p, s; Vector_<> gc, gp, gs;
    if (bl) { c = Distribution::BlackOpt(f, v, x, ty(0)); p = Distribution::BlackOpt(f, v, x, ty(1)); s = Distribution::BlackOpt(f, v, x, ty(2)); gc = Distribution::BlackGreeks(f, v, x, ty(0)); gp = Distribution::BlackGreeks(f, v, x, ty(1)); gs = Distribution::BlackGreeks(f, v, x, ty(2)); DistributionBlack_ d(f, v); CLOSE(d.OptionPrice(x, ty(1)), p, "the distribution prices with its forward and volatility"); CLOSE(d.VolVega(x, ty(1)), v * gp[1], "the volatility vega is the vega times the volatility"); CLOSE(d.Forward(), f, "the forward is reported"); CLOSE(d.Vol(), v, "the volatility is reported"); Vector_<String_> r; r.push_back("delta"); r.push_back("vega"); r.push_back("volvega"); auto m = d.ParameterDerivatives(x, ty(2), r); CLOSE(m[String_("delta")], gs[0], "derivatives are reported by name"); CLOSE(m[String_("vega")], gs[1], "derivatives are reported by name"); CLOSE(m[String_("volvega")], v * gs[1], "derivatives are reported by name"); d.Vol() = 0.5; CLOSE(d.OptionPrice(1.25, ty(0)), Distribution::BlackOpt(f, 0.5, 1.25, ty(0)), "changing the volatility reprices"); r.push_back("gamma"); ASSERT(throws_([&] { d.ParameterDerivatives(x, ty(0), r); }), "unknown derivative names are rejected"); }
    else { c = Distribution::BachelierOpt(f, v, x, ty(0)); p = Distribution::BachelierOpt(f, v, x, ty(1)); s = Distribution::BachelierOpt(f, v, x, ty(2)); gc = Distribution::BachelierGreeks(f, v, x, ty(0)); gp = Distribution::BachelierGreeks(f, v, x, ty(1)); gs = Distribution::BachelierGreeks(f, v, x, ty(2)); DistributionBachelier_ d(f, v); CLOSE(d.OptionPrice(x, ty(1)), p, "the distribution prices with its forward and volatility"); CLOSE(d.VolVega(x, ty(1)), v * gp[1], "the volatility vega is the vega times the volatility"); Vector_<String_> r; r.push_back("delta"); r.push_back("vega"); r.push_back("volvega"); auto m = d.ParameterDerivatives(x, ty(2), r); CLOSE(m[String_("delta")], gs[0], "derivatives are reported by name"); CLOSE(m[String_("vega")], gs[1], "derivatives are reported by name"); CLOSE(m[String_("volvega")], v * gs[1], "derivatives are reported by name"); }
    CLOSE(c - p, f - x, "a call less a put is the forward less the strike"); CLOSE(s, c + p, "a straddle is a call and a put"); CLOSE(gc[0] - gp[0], 1.0, "the deltas of a call and a put differ by one"); CLOSE(gs[0], gc[0] + gp[0], "a straddle's delta is the sum"); CLOSE(gs[1], gc[1] + gp[1], "a straddle's vega is the sum"); CLOSE(gc[1], gp[1], "a call and a put have the same vega"); ASSERT(gc[1] >= 0, "vega is not negative"); ASSERT((gc[0] >= 0) & (gc[0] <= 1), "a call's delta lies between zero and one");
}
static AAD::Number_ opt(bool bl, const AAD::Number_& f, const AAD::Number_& v, const AAD::Number_& x, int k) { return bl ? Distribution::BlackOpt<AAD::Number_>(f, v, x, ty(k)) : Distribution::BachelierOpt<AAD::Number_>(f, v, x, ty(k)); }
static void greek(bool vega) {
    int k = sym_choice("type", 3); bool bl = sym_choice("black", 2) == 1; double f = sym_range("f", 0.5, 2), v = sym_range("v", 0.1, 1), x = sym_range("x", 0.5, 2), z = std::log(f / x) / v; if (bl) ASSUME((z < 9) & (z > -9));
    AAD::Number_::SetTape(*new AAD::Tape_()); AAD::Number_ nf(f), nv(v), nx(x); nf.PutOnTape(); nv.PutOnTape(); nx.PutOnTape(); AAD::Number_ r = opt(bl, nf, nv, nx, k); r.PropagateToStart(); Vector_<> g = bl ? Distribution::BlackGreeks(f, v, x, ty(k)) : Distribution::BachelierGreeks(f, v, x, ty(k));
    double a = vega ? nv.Adjoint() : nf.Adjoint(), e = a - g[vega ? 1 : 0]; ASSERT((e < 1e-7) & (e > -1e-7), vega ? "vega is the derivative of the price with respect to volatility" : "delta is the derivative of the price with respect to the forward"); CLOSE(r.value(), bl ? Distribution::BlackOpt(f, v, x, ty(k)) : Distribution::BachelierOpt(f, v, x, ty(k)), "the price with derivatives is the price");
}
HARNESS(h_delta) { greek(false); }
HARNESS(h_vega) { greek(true); }
HARNESS(h_zero) {
    int k = sym_choice("kind", 4), t = sym_choice("type", 3); double f = sym_range("f", -2, 2), x = sym_range("x", -2, 2), p = ty(t).Payout(f, x);
    if (k == 0) CLOSE(Distribution::BlackOpt(f, 0.0, x, ty(t)), p, "without volatility an option is worth its payout"); else if (k == 1) CLOSE(Distribution::BachelierOpt(f, 0.0, x, ty(t)), p, "without volatility an option is worth its payout"); else if (k == 2) { ASSUME(f * x <= 0); CLOSE(Distribution::BlackOpt(f, 0.5, x, ty(t)), p, "outside the lognormal domain an option is worth its payout"); }
    else { double l = sym_range("l", 0.5, 4); ASSUME((f > 0.5) & (x > 0.5)); CLOSE(Distribution::BlackOpt(l * f, 0.5, l * x, ty(t)), l * Distribution::BlackOpt(f, 0.5, x, ty(t)), "prices scale with forward and strike"); }
}
HARNESS(h_ncdf) {
    int k = sym_choice("kind", 3); double z = sym_range("z", -6, 6); 
    if (k == 0) { CLOSE(NCDF(z) + NCDF(-z), 1.0, "the normal distribution is symmetric"); ASSERT((NCDF(z) >= 0) & (NCDF(z) <= 1), "a probability lies between zero and one"); CLOSE(NPDF(z), NPDF(-z), "the normal density is symmetric"); ASSERT(NPDF(z) >= 0, "a density is not negative"); double y = sym_range("y", -6, 6); ASSUME(y - z > 0.001); ASSERT(NCDF(y) >= NCDF(z), "the normal distribution increases"); }
    else if (k == 1) { ASSUME((z > -3.7) & (z < 3.7)); CLOSE(NCDF(z, false) + NCDF(-z, false), 1.0, "the fast normal distribution is symmetric"); double v = NCDF(z, false); ASSERT((v > -1e-6) & (v < 1 + 1e-6), "a fast probability lies between zero and one"); }
    else { ASSERT(throws_([&] { InverseNCDF(-0.001 - (z + 6)); }) && throws_([&] { InverseNCDF(1.001 + (z + 6)); }), "probabilities outside [0, 1] are rejected"); ASSUME((z > 0.03) & (z < 0.49)); CLOSE(InverseNCDF(z, true, false) + InverseNCDF(1.0 - z, true, false), 0.0, "the inverse distribution is antisymmetric"); double u = InverseNCDF(z, true, false); ASSERT((u < 0) & (u > -2.2), "the inverse of a probability below a half is negative"); }
}
