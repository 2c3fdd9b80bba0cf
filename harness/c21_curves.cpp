//@ prop C21
//@ src dal/curve/piecewiseconstant.cpp dal/curve/piecewiselinear.cpp dal/curve/ycimp.cpp dal/curve/yccomponent.cpp dal/curve/discount.cpp dal/time/date.cpp dal/math/vectors.cpp dal/storage/archive.cpp dal/string/strings.cpp
//@ bounds one to four knots with gaps of up to 400 days, function values any reals in range, query dates any day from 10 days before the first knot to 30 after the last (window cases) and every pair or triple of them
//@ run h_const split=4 budget=60
//@ run h_linear split=4 budget=60
//@ run h_discount split=3 budget=80 ta=20000
#include <dal/platform/platform.hpp>
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/curve/discount.hpp>
#include <dal/time/date.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <dal/curve/ycimp.hpp>
#include "sym.h"
using namespace Dal;
static const int GAP[4][3] = {{0, 0, 0}, {30, 0, 0}, {1, 12, 0}, {7, 1, 20}}; static const int NK[4] = {1, 2, 3, 4}; static const char* FN[8] = {"f0", "f1", "f2", "f3", "g0", "g1", "g2", "g3"};
HARNESS(h_const) {
    int k = sym_choice("knots", 4), n = NK[k], off[4]; Date_ b(2024, 1, 1); Vector_<Date_> ds; Vector_<> f; int t = 0; for (int i = 0; i < n; ++i) { off[i] = t; ds.push_back(b.AddDays(t)); f.push_back(sym_range(FN[i], -3, 3)); if (i < 3) t += GAP[k][i]; } PiecewiseConstant_ c(ds, f);
    int a = (int)sym_concrete(sym_i64("a", -5, off[n - 1] + 6)), z = (int)sym_concrete(sym_i64("z", -5, off[n - 1] + 6)); bool kn = false; double v = PWC::F(c, b.AddDays(a), &kn), e = 0; bool ek = false; for (int i = 0; i < n; ++i) { if (a >= off[i]) e = f[i]; ek |= a == off[i]; } CLOSE(v, e, "a piecewise-constant function has the value of the last knot on or before the date, zero before the first"); ASSERT(kn == ek, "knot dates are reported"); CLOSE(PWC::F(c, b.AddDays(a)), e, "the knot flag is optional");
    double s = 0; for (int d = a < z ? a : z; d < (a < z ? z : a); ++d) { double q = 0; for (int i = 0; i < n; ++i) if (d >= off[i]) q = f[i]; s += q; } CLOSE(PWC::Integral(c, b.AddDays(a), b.AddDays(z)), a < z ? s : -s, "an integral is the sum of the daily values, signed by direction"); std::unique_ptr<PiecewiseConstant_> u(PWC::NewConstant(f[0], b)); CLOSE(u->IntegralTo(b.AddDays(z)), z > 0 ? z * f[0] : 0.0, "a constant integrates to its value times the days");
    c.fRight_[0] = 5.0; c.Update(); CLOSE(PWC::Integral(c, b, b.AddDays(1)), n > 1 && off[1] < 1 ? c.fRight_[1] : 5.0, "updating recomputes the integrals");
}
HARNESS(h_linear) {
    int k = sym_choice("knots", 4), n = NK[k], off[4]; Date_ b(2024, 1, 1); Vector_<Date_> ds; Vector_<> l, r; int t = 0; for (int i = 0; i < n; ++i) { off[i] = t; ds.push_back(b.AddDays(t)); l.push_back(sym_range(FN[i], -3, 3)); r.push_back(sym_range(FN[4 + i], -3, 3)); if (i < 3) t += GAP[k][i]; } PiecewiseLinear_ c(ds, l, r);
    int a = (int)sym_concrete(sym_i64("a", -5, off[n - 1] + 6)), z = (int)sym_concrete(sym_i64("z", -5, off[n - 1] + 6)); auto val = [&](int d, bool right) { if (right ? d < off[0] : d <= off[0]) return l[0]; for (int i = 1; i < n; ++i) if (right ? d < off[i] : d <= off[i]) return r[i - 1] + (l[i] - r[i - 1]) * (double(d - off[i - 1]) / (off[i] - off[i - 1])); return r[n - 1]; };
    CLOSE(c.ValueAt(b.AddDays(a), true), val(a, true), "a piecewise-linear function's right value"); CLOSE(c.ValueAt(b.AddDays(a), false), val(a, false), "a piecewise-linear function's left value"); double s = 0; int lo = a < z ? a : z, hi = a < z ? z : a; for (int d = lo; d < hi; ++d) s += 0.5 * (val(d, true) + val(d + 1, false)); CLOSE(c.IntegralTo(b.AddDays(z)) - c.IntegralTo(b.AddDays(a)), a < z ? s : -s, "an integral is the sum of the daily trapezoids, signed by direction, also before the first and after the last knot");
}
HARNESS(h_discount) {
    int k = 1 + sym_choice("knots", 3), n = NK[k]; Date_ b(2024, 1, 1); Vector_<Date_> ds; Vector_<> l, r; int t = 0; for (int i = 0; i < n; ++i) { ds.push_back(b.AddDays(t)); l.push_back(sym_range(FN[i], -1, 1)); r.push_back(sym_range(FN[4 + i], -1, 1)); if (i < 3) t += GAP[k][i]; } PiecewiseLinear_ p(ds, l, r), q(Vector_<Date_>(1, b), Vector_<>(1, sym_range("bl", -1, 1)), Vector_<>(1, sym_range("br", -1, 1))); bool based = sym_choice("base", 2) == 1;
    Handle_<DiscountCurve_> base; if (based) base.reset(NewDiscountPWLF(String_("base"), q)); std::unique_ptr<DiscountCurve_> d(NewDiscountPWLF(String_("d"), p, base)); static const int DD[5] = {-3, 0, 1, 5, 40}; Date_ x = b.AddDays(DD[sym_choice("x", 5)]), y = b.AddDays(DD[sym_choice("y", 5)]), z = b.AddDays(t + 4);
    double xy = (*d)(x, y), yz = (*d)(y, z), xz = (*d)(x, z), yx = (*d)(y, x); ASSUME((xz < 10) & (xz > 0.1)); CLOSE(xy * yz, xz, "discount factors multiply along the path"); CLOSE((*d)(x, x), 1.0, "a discount factor over no time is one"); CLOSE(xy * yx, 1.0, "a discount factor backwards is the inverse"); ASSERT(xy > 0, "a discount factor is positive"); CLOSE(xy, std::exp(-(p.IntegralTo(y) - p.IntegralTo(x)) / 365.0) * (based ? (*base)(x, y) : 1.0), "a discount factor is the exponential of minus the integrated forward rate, on top of its base");
    Vector_<const YCComponent_*> all; static_cast<const YCComponent_&>(*d).Poll(&all); ASSERT((int)all.size() == 1 + based && all[0] == d.get(), "polling a curve reports it and its bases"); if (based) { Handle_<DiscountCurve_> nb(NewDiscountPWLF(String_("nb"), p)); YCComponent_::substitutions_t sub; sub[base.get()] = handle_cast<YCComponent_>(nb); std::unique_ptr<YCComponent_> cl(d->Clone(String_("c"), sub)); auto dc = dynamic_cast<DiscountCurve_*>(cl.get()); ASSERT(dc != nullptr && cl->Name() == "c", "a clone is a discount curve of its new name"); if (dc) { CLOSE((*dc)(x, y), std::exp(-2 * (p.IntegralTo(y) - p.IntegralTo(x)) / 365.0), "a clone with a substituted base uses the substitute"); CLOSE((*d)(x, y), xy, "cloning leaves the original as it was"); } }
}
