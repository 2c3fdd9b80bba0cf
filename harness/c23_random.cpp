//@ prop C23
//@ src dal/math/random/pseudorandom.cpp dal/math/random/brownianbridge.cpp dal/math/specialfunctions.cpp dal/string/strings.cpp dal/storage/archive.cpp dal/math/vectors.cpp dal/math/interp/interpcubic.cpp dal/math/interp/interp.cpp
//@ bounds seeds from six values for ranges and antithetic pairs (60 paths) and from three values for positions; one to three dimensions, positions 0..7 after 0..3 earlier paths; Brownian bridges of 1..9 steps over all normals in [-8, 8]
//@ run h_range split=2 budget=60
//@ run h_skip split=2 budget=60
//@ run h_bridge split=9 budget=60
#include <dal/platform/platform.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/math/random/brownianbridge.hpp>
#include <dal/math/specialfunctions.hpp>
#include "sym.h"
using namespace Dal;
static const char* N[2] = {"MRG32", "IRN"};
static Random_* gen(int k, int seed, int d, bool precise = false) { return New(RNGType_(String_(N[k])), seed, d, precise); }
HARNESS(h_range) {
    int k = sym_choice("kind", 2), d = 1 + sym_choice("dim", 2); static const int S[6] = {1, 2, 1023, 65537, 987654, 2147483646}; int seed = S[sym_choice("seed", 6)]; double t = sym_range("t", 0.001, 1); Random_* g = gen(k, seed, d); Random_* h = gen(k, seed, d); ASSERT(g->NDim() == (size_t)d, "the dimension is reported");
    Vector_<> u(d), v(d), w(d);
    for (int m = 0; m < 30; ++m) { g->FillUniform(&u); g->FillUniform(&v); h->FillUniform(&w); h->FillUniform(&u); for (int i = 0; i < d; ++i) u[i] = w[i];
    for (int i = 0; i < d; ++i) { ASSERT((t * u[i] > 0) & (t * u[i] < t), "uniform deviates lie strictly between zero and one"); CLOSE(t * u[i] + t * v[i], t, "paths come in antithetic pairs, the same for the same seed"); } }
}
HARNESS(h_skip) {
    static const int S[3] = {1, 1024, 987654}; int k = sym_choice("kind", 2), s = sym_choice("seed", 3), d = 1 + sym_choice("dim", 3), n = sym_choice("position", 8), h = sym_choice("history", 4); bool normal = sym_choice("normal", 2), cl = sym_choice("clone", 2);
    Random_* a = gen(k, S[s], d); Random_* b = gen(k, S[s], d); if (cl) b = b->Clone(); ASSERT(b->NDim() == (size_t)d, "a clone has the same dimension"); Vector_<> x(d), y(d); double t = sym_range("t", 0, 1);
    for (int i = 0; i < n; ++i) if (normal) a->FillNormal(&x); else a->FillUniform(&x); for (int i = 0; i < h; ++i) if (i & 1) b->FillUniform(&y); else b->FillNormal(&y);
    b->SkipTo(n); for (int m = 0; m < 3; ++m) { if (normal) { a->FillNormal(&x); b->FillNormal(&y); } else { a->FillUniform(&x); b->FillUniform(&y); } for (int i = 0; i < d; ++i) CLOSE(t * x[i], t * y[i], "skipping to a path gives the deviates generating up to it gives"); }
    Random_* c = gen(k, S[s], d); Random_* e = gen(k, S[s], d); for (int m = 0; m < n; ++m) { c->FillNormal(&x); e->FillUniform(&y); for (int i = 0; i < d; ++i) CLOSE(t * x[i], t * InverseNCDF(y[i], false, false), "normal deviates are the normal quantiles of the uniform points"); e->FillUniform(&y); }
    Vector_<> big(d + 1); ASSERT(throws_([&] { a->FillUniform(&big); }), "more deviates than the dimension are refused");
    Random_* p = gen(k, S[s], d, true); Random_* q = p->Clone(); p->FillNormal(&x); q->FillNormal(&y); for (int i = 0; i < d; ++i) CLOSE(t * x[i], t * y[i], "a clone is as precise as its original");
}
struct Src : Random_ { Vector_<> z; int skipped = -1, at = 0; void FillUniform(Vector_<>* v) override { *v = z; } void FillNormal(Vector_<>* v) override { for (size_t i = 0; i < v->size(); ++i) (*v)[i] = z[i]; ++at; } void SkipTo(size_t n) override { skipped = (int)n; } Random_* Clone() const override { return new Src(*this); } size_t NDim() const override { return z.size(); } };
HARNESS(h_bridge) {
    int n = 1 + sym_choice("steps", 9), e = sym_choice("basis", 9); if (e >= n) return; bool cl = sym_choice("clone", 2); Src* s = new Src; s->z.Resize(n); Vector_<Vector_<>> B(n); Random_* b = new BrownianBridge_(std::unique_ptr<Random_>(s)); ASSERT(b->NDim() == (size_t)n, "a bridge keeps the dimension"); b->SkipTo(7); ASSERT(s->skipped == 7, "a bridge skips its source");
    for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) s->z[j] = i == j; b->FillNormal(&B[i]); ASSERT(B[i].size() == (size_t)n, "a bridge fills its dimension"); }
    for (int i = 0; i < n; ++i) { double p = 0; for (int j = 0; j < n; ++j) p += B[i][j] * B[e][j]; CLOSE(p, i == e ? 1.0 : 0.0, "a bridge turns independent normals into independent normals"); }
    double t = 0; for (int j = 0; j < n; ++j) t += B[e][j]; CLOSE(t, e == 0 ? std::sqrt((double)n) : 0.0, "the first normal drives the end of the bridge");
    Vector_<> z(n), o; for (int j = 0; j < n; ++j) s->z[j] = z[j] = sym_range("z", -8, 8); if (cl) b = b->Clone(); b->FillNormal(&o);
    for (int j = 0; j < n; ++j) { double r = 0; for (int i = 0; i < n; ++i) r += z[i] * B[i][j]; CLOSE(o[j], r, "a bridge is linear in its normals and keeps no memory"); }
    Vector_<> u; b->FillUniform(&u); CLOSE(u[e], NCDF(o[e]), "uniforms are the normal distribution of the bridged normals");
}
