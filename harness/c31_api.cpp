//@ prop C31
//@ src public/src/interp.cpp dal/script/simulation.cpp dal/math/random/pseudorandom.cpp dal/math/random/brownianbridge.cpp dal/math/specialfunctions.cpp dal/string/strings.cpp dal/storage/archive.cpp dal/math/vectors.cpp dal/math/interp/interpcubic.cpp dal/math/interp/interp.cpp dal/math/interp/interplinear.cpp
//@ bounds draws of 0..3 rows in one or two requests, one to three dimensions, three seeds, both generators; linear interpolation objects of two to four symbolic knots at a symbolic point; simulation generators of one to four dimensions with and without bridge
//@ run h_draw split=2 budget=60
//@ run h_rng split=2 budget=60
//@ run h_interp split=3 budget=60
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <public/src/random.hpp>
#include <public/src/interp.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/random/brownianbridge.hpp>
#include "sym.h"
using namespace Dal;
namespace Dal { SequenceSet_* NewSobol(int, size_t, bool) { return nullptr; } }
namespace Dal::Script { std::unique_ptr<Random_> CreateRNG(const String_& method, size_t n_dim, bool use_bb); }
static const char* N[2] = {"MRG32", "IRN"}; static const int S[3] = {1, 1024, 987654};
HARNESS(h_draw) {
    int k = sym_choice("kind", 2), s = sym_choice("seed", 3), d = 1 + sym_choice("dim", 3), n = sym_choice("rows", 4), m = sym_choice("more", 3); bool normal = sym_choice("normal", 2); double t = sym_range("t", -1, 1); Handle_<PseudoRSG_> h = NewPseudoRSG(N[k], S[s], d); ASSERT(h->NDim() == (size_t)d, "a generator has the dimension asked for"); std::unique_ptr<Random_> g(New(RNGType_(String_(N[k])), S[s], d)); Matrix_<> y(2, 5); Vector_<> x(d);
    for (int part = 0; part < 2; ++part) { int r = part ? m : n; if (normal) GetPseudoRSGNormal(h, r, &y); else GetPseudoRSGUniform(h, r, &y); ASSERT(y.Rows() == r && (r == 0 || y.Cols() == d), "one row for each path, one column for each dimension"); for (int i = 0; i < r; ++i) { if (normal) g->FillNormal(&x); else g->FillUniform(&x); for (int j = 0; j < d; ++j) CLOSE(t * y(i, j), t * x[j], "rows are the generator's consecutive paths, and a later request goes on where the earlier ended"); } }
}
HARNESS(h_rng) {
    bool bb = sym_choice("bridge", 2); int k = sym_choice("kind", 2), d = 1 + sym_choice("dim", 4); static const char* M[2] = {"mrg32", "irn"}; auto r = Script::CreateRNG(M[k], d, bb); double t = sym_range("t", -1, 1); std::unique_ptr<Random_> g(New(RNGType_(String_(N[k])), 1024, d)); if (bb) g.reset(new BrownianBridge_(std::move(g))); ASSERT(r->NDim() == (size_t)d, "a simulation's generator has one dimension for each normal"); Vector_<> x(d), y(d); for (int i = 0; i < 3; ++i) { r->FillNormal(&x); g->FillNormal(&y); for (int j = 0; j < d; ++j) CLOSE(t * x[j], t * y[j], "a simulation draws from the generator named, bridged exactly when asked for"); }
    ASSERT(throws_([&] { (void)Script::CreateRNG("mrg", d, bb); }) && throws_([&] { (void)Script::CreateRNG("", d, bb); }), "unknown generators are refused");
}
static const char* XN[4] = {"x0", "x1", "x2", "x3"}; static const char* YN[4] = {"y0", "y1", "y2", "y3"};
HARNESS(h_interp) {
    int n = 2 + sym_choice("n", 3); Vector_<> x(n), y(n); double p = -5; for (int i = 0; i < n; ++i) { p += sym_range(XN[i], 0.25, 3); x[i] = p; y[i] = sym_range(YN[i], -10, 10); } Handle_<Interp1_> h = Interp1NewLinear("nm", x, y); ASSERT(h->name_ == "nm", "an interpolation has the name given"); for (int i = 0; i < n; ++i) CLOSE((*h)(x[i]), y[i], "an interpolation goes through its knots"); int k = sym_choice("gap", 3); if (k + 1 < n) { double w = sym_range("w", 0, 1); CLOSE((*h)(x[k] + w * (x[k + 1] - x[k])), y[k] + w * (y[k + 1] - y[k]), "a linear interpolation is linear between knots"); } Vector_<> z(x); z[0] = z[1] + 0.5; ASSERT(throws_([&] { (void)Interp1NewLinear("nm", z, y); }), "knots out of order are refused"); z.Resize(n + 1); ASSERT(throws_([&] { (void)Interp1NewLinear("nm", z, y); }), "each knot needs a value");
}
