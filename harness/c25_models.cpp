//@ prop C25
//@ src dal/model/blackscholes.cpp dal/model/dupire.cpp dal/math/aad/tape.cpp dal/math/aad/aad.cpp dal/math/vectors.cpp dal/math/interp/interp.cpp dal/storage/archive.cpp dal/string/strings.cpp
//@ bounds timelines of one to three dates (with and without today, any spacing for Black-Scholes, a fixed set of spacings for local volatility), every spot, vol, rate, yield and Gaussian draw in range, local-vol grids of one to three spots by one or two times; grid filling on up to three points with up to four steps in a gap
//@ run h_bs split=5 budget=60
//@ run h_bs_clone budget=40
//@ run h_bs_aad split=4 budget=60
//@ run h_dup split=6 budget=80
//@ run h_dup_aad split=3 budget=60
//@ run h_fill split=3 budget=60
//@ run h_data budget=40
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/model/factory.hpp>
#include "sym.h"
using namespace Dal;
using namespace Dal::AAD;
static const char *TN[3] = {"t0", "t1", "t2"}, *GN[6] = {"g0", "g1", "g2", "g3", "g4", "g5"}, *VN[6] = {"v00", "v01", "v10", "v11", "v20", "v21"};
static Vector_<SampleDef_> Defs(const Vector_<>& tl, int numMask) { Vector_<SampleDef_> d; for (size_t i = 0; i < tl.size(); ++i) { SampleDef_ s; s.numeraire_ = (numMask >> i) & 1; s.forwardMats_.push_back(Vector_<>(1, tl[i])); s.discountMats_.push_back(tl[i] + 0.5); d.push_back(s); } return d; }
HARNESS(h_bs) {
    int c = sym_choice("dates", 5), m = sym_choice("numeraires", 2) ? 5 : 2; bool today = c == 0 || c == 2 || c == 4; int n = c < 1 ? 1 : c < 3 ? 2 : 3; Vector_<> tl; double t = 0; for (int i = 0; i < n; ++i) { if (i || !today) t += sym_range(TN[i], 0.01, 3); tl.push_back(t); } auto defs = Defs(tl, m);
    double s = sym_range("spot", 0.5, 200), v = sym_range("vol", 0.01, 1), r = sym_range("rate", -0.2, 0.2), q = sym_range("div", -0.2, 0.2); BlackScholes_<double> mdl(s, v, r, q); mdl.Allocate(tl, defs); mdl.Init(tl, defs); ASSERT((int)mdl.SimDim() == n - today, "a path needs one draw per date after today");
    for (int rep = 0; rep < 2; ++rep) { Vector_<> g; for (int i = 0; i < n - today; ++i) g.push_back(sym_range(GN[3 * rep + i], -4, 4)); Scenario_<> p; AllocatePath(defs, p); InitializePath(p); mdl.GeneratePath(g, &p); double x = 0, last = 0; int k = 0;
        for (int i = 0; i < n; ++i) { if (i || !today) { double dt = tl[i] - last; x += (r - q - 0.5 * v * v) * dt + v * std::sqrt(dt) * g[k++]; } last = tl[i]; CLOSE(p[i].spot_, s * std::exp(x), "a Black-Scholes path is spot times the exponential of its accumulated drift and noise"); CLOSE(p[i].numeraire_, (m >> i) & 1 ? std::exp(r * tl[i]) : 1.0, "the numeraire is the bank account where asked for and untouched elsewhere"); } }
    ASSERT((int)defs.size() == n, "the definitions are left alone");
}
HARNESS(h_bs_clone) {
    Vector_<> tl; bool today = sym_choice("today", 2); if (today) tl.push_back(0); tl.push_back(1.0); tl.push_back(2.25); auto defs = Defs(tl, 7); int n = (int)tl.size(); double a[4] = {sym_range("spot", 1, 200), sym_range("vol", 0.01, 1), sym_range("rate", -0.2, 0.2), sym_range("div", -0.2, 0.2)}, b[4] = {sym_range("spot2", 1, 200), sym_range("vol2", 0.01, 1), sym_range("rate2", -0.2, 0.2), sym_range("div2", -0.2, 0.2)}; static const char* L[4] = {"spot", "vol", "rate", "div"}; Vector_<> g; g.push_back(sym_range("g0", -4, 4)); g.push_back(sym_range("g1", -4, 4));
    BlackScholes_<double> mdl(a[0], a[1], a[2], a[3]); mdl.Allocate(tl, defs); mdl.Init(tl, defs); auto cl = mdl.Clone(); Scenario_<> p, q; AllocatePath(defs, p); AllocatePath(defs, q); InitializePath(p); InitializePath(q); mdl.GeneratePath(g, &p); cl->GeneratePath(g, &q); for (int i = 0; i < n; ++i) { CLOSE(p[i].spot_, q[i].spot_, "a clone produces the same path"); CLOSE(p[i].numeraire_, q[i].numeraire_, "a clone produces the same numeraire"); }
    ASSERT(cl->NumParams() == 4 && cl->ParameterLabels().size() == 4, "a clone has the same parameters"); for (int i = 0; i < 4; ++i) { ASSERT(cl->ParameterLabels()[i] == L[i], "parameters keep their labels"); ASSERT(*cl->Parameters()[i] == a[i], "each label's parameter has its value"); ASSERT(cl->Parameters()[i] != mdl.Parameters()[i], "a clone has parameters of its own"); *cl->Parameters()[i] = b[i]; } cl->Init(tl, defs); cl->GeneratePath(g, &q); BlackScholes_<double> ref(b[0], b[1], b[2], b[3]); ref.Allocate(tl, defs); ref.Init(tl, defs); Scenario_<> e, f; AllocatePath(defs, e); InitializePath(e); AllocatePath(defs, f); InitializePath(f); ref.GeneratePath(g, &e); mdl.GeneratePath(g, &f);
    for (int i = 0; i < n; ++i) { CLOSE(q[i].spot_, e[i].spot_, "a clone follows its own changed parameters"); CLOSE(q[i].numeraire_, e[i].numeraire_, "a clone's numeraire follows its own changed parameters"); CLOSE(f[i].spot_, p[i].spot_, "changing a clone leaves the original as it was"); }
    Vector_<> t2(1, 0.5); auto d2 = Defs(t2, 1); cl->Allocate(t2, d2); cl->Init(t2, d2); ASSERT(cl->SimDim() == 1, "a model can be laid out again on another timeline"); Scenario_<> o; AllocatePath(d2, o); InitializePath(o); cl->GeneratePath(g, &o); CLOSE(o[0].spot_, b[0] * std::exp((b[2] - b[3] - 0.5 * b[1] * b[1]) * 0.5 + b[1] * std::sqrt(0.5) * g[0]), "a model laid out again follows the new timeline");
}
HARNESS(h_bs_aad) {
    int c = sym_choice("dates", 4); bool today = c & 1; Vector_<> tl; if (today) tl.push_back(0); tl.push_back(0.75); if (c >= 2) tl.push_back(2.0); auto defs = Defs(tl, 7); int n = (int)tl.size(), k = n - today; Number_::SetTape(*new Tape_()); double s = sym_range("spot", 1, 200), v = sym_range("vol", 0.01, 1), r = sym_range("rate", -0.2, 0.2), q = sym_range("div", -0.2, 0.2); BlackScholes_<Number_> proto{Number_(s), Number_(v), Number_(r), Number_(q)}; auto mdl = proto.Clone(); mdl->Allocate(tl, defs); Number_::Tape()->Rewind(); for (auto* x : mdl->Parameters()) x->PutOnTape(); mdl->Init(tl, defs); Scenario_<Number_> p; AllocatePath(defs, p); InitializePath(p); Number_::Tape()->Mark();
    bool neg = sym_choice("negative", 2); double tot[4] = {0, 0, 0, 0}; for (int rep = 0; rep < 2; ++rep) { Number_::Tape()->RewindToMark(); Vector_<> g; double w = 0, vw = 0; for (int i = 0; i < k; ++i) { g.push_back(neg ? sym_range(GN[3 * rep + i], -4, -0.01) : sym_range(GN[3 * rep + i], 0.01, 4)); double dt = i ? 1.25 : 0.75; w += std::sqrt(dt) * g[i] - v * dt; vw += (r - q - 0.5 * v * v) * dt + v * std::sqrt(dt) * g[i]; } double ev = std::exp(vw), er = std::exp(r * tl[n - 1]); ASSUME((ev > 0.05) & (ev < 20)); ASSUME((er > 0.5) & (er < 2)); mdl->GeneratePath(g, &p); Number_ res = p[n - 1].spot_ / p[n - 1].numeraire_; CLOSE(res.value(), s * std::exp(vw) / std::exp(r * tl[n - 1]), "a differentiated path has the values of the plain one"); res.PropagateToMark(); double S = s * std::exp(vw) * std::exp(-r * tl[n - 1]); tot[0] += S / s; tot[1] += S * w; tot[2] += 0; tot[3] += -S * tl[n - 1]; }
    Number_::PropagateMarkToStart(); for (int i = 0; i < 4; ++i) CLOSE(mdl->Parameters()[i]->Adjoint(), tot[i], "the adjoint of a model parameter is the summed derivative of the paths");
}
static double Lin(const Vector_<>& x, const double* y, double a, double* d = nullptr) { int n = (int)x.size(); if (d) *d = 0; if (a <= x[0]) return y[0]; if (a >= x[n - 1]) return y[n - 1]; int i = 1; while (a > x[i]) ++i; double k = (y[i] - y[i - 1]) / (x[i] - x[i - 1]); if (d) *d = k; return y[i - 1] + k * (a - x[i - 1]); }
static const double TL[6][3] = {{0, 1.25, -1}, {0.5, -1, -1}, {1.0, 2.0, -1}, {0, 0.25, 2.5}, {0.001, 1.0, -1}, {0.75, 0.7505, -1}};
HARNESS(h_dup) {
    int c = sym_choice("dates", 6), ns = c == 3 ? 1 : 1 + sym_choice("spots", 3), nt = 1 + sym_choice("times", 2); Vector_<> tl; for (int i = 0; i < 3 && TL[c][i] >= 0; ++i) tl.push_back(TL[c][i]); int n = (int)tl.size(); auto defs = Defs(tl, 5); Vector_<> sp, tm; static const double SP[3] = {80, 100, 125}, TT[2] = {0.5, 1.5}; for (int i = 0; i < ns; ++i) sp.push_back(SP[i]); for (int i = 0; i < nt; ++i) tm.push_back(TT[i]); Matrix_<> vo(ns, nt); double y[3][2]; for (int i = 0; i < ns; ++i) for (int j = 0; j < nt; ++j) vo(i, j) = y[i][j] = c == 3 ? 0.25 + 0.125 * i - 0.0625 * j : sym_range(VN[2 * i + j], 0.05, 0.6);
    double x0 = sym_range("logspot", 4.1, 5.1), s = std::exp(x0), r = c == 3 ? 0.0625 : sym_range("rate", -0.1, 0.1), q = c == 3 ? 0.03125 : sym_range("repo", -0.1, 0.1), md = sym_choice("step", 2) ? 1.0 : 5.0; Dupire_<double> proto(s, r, q, sp, tm, vo, md); auto mdl = proto.Clone(); mdl->Allocate(tl, defs); mdl->Init(tl, defs);
    Vector_<> grid; grid.push_back(0); for (int i = 0; i < n; ++i) { double a = grid.back(), b = tl[i]; if (i == 0 && b < HALF_DAY) { grid[0] = b; continue; } int k = int((b - a) / md - 1e-12) + 1; for (int j = 1; j < k; ++j) grid.push_back(a + j * (b - a) / k); grid.push_back(b); } ASSERT(mdl->SimDim() == grid.size() - 1, "a local-vol path needs one draw per step, steps no longer than the maximum");
    Vector_<> g; for (size_t i = 0; i + 1 < grid.size(); ++i) g.push_back(grid.size() > 3 && i > 0 ? (i & 1 ? -1.0 : 0.5) : sym_range(GN[i], -2, 2)); Scenario_<> p; AllocatePath(defs, p); InitializePath(p); mdl->GeneratePath(g, &p); Vector_<> ls; for (int i = 0; i < ns; ++i) ls.push_back(std::log(sp[i])); double x = x0; size_t idx = 0;
    for (size_t i = 0; i < grid.size(); ++i) { if (i) { double dt = grid[i] - grid[i - 1], col[3]; for (int j = 0; j < ns; ++j) { col[j] = std::sqrt(dt) * Lin(tm, y[j], grid[i - 1]); ASSUME((x - ls[j] > 1e-6) | (x - ls[j] < -1e-6)); } double v = Lin(ls, col, x); x += (r - q) * dt - 0.5 * v * v + v * g[i - 1]; } if (idx < tl.size() && tl[idx] == grid[i]) { CLOSE(std::log(p[idx].spot_), x, "a local-vol path follows drift and interpolated vol step by step"); CLOSE(p[idx].numeraire_, (5 >> idx) & 1 ? std::exp(r * tl[idx]) : 1.0, "the numeraire is the bank account where asked for"); CLOSE(p[idx].discounts_[0], std::exp(-r * 0.5), "discounts are taken from each date to its maturity"); CLOSE(p[idx].forwards_[0][0], p[idx].spot_, "forwards are set from the spot"); ++idx; } } ASSERT(idx == tl.size(), "every product date is a step");
    ASSERT((int)mdl->NumParams() == 3 + ns * nt && mdl->Parameters()[0] != proto.Parameters()[0], "a clone has all parameters as its own"); for (int i = 0; i < ns; ++i) for (int j = 0; j < nt; ++j) { ASSERT(*mdl->Parameters()[3 + i * nt + j] == y[i][j], "local vols are parameters row by row"); ASSERT(mdl->Parameters()[3 + i * nt + j] != proto.Parameters()[3 + i * nt + j], "a clone has local vols of its own"); }
}
HARNESS(h_dup_aad) {
    int c = sym_choice("dates", 3); Vector_<> tl; if (c == 1) tl.push_back(0); tl.push_back(1.0); if (c == 2) tl.push_back(2.0); int n = (int)tl.size(), k = c == 2 ? 2 : 1; auto defs = Defs(tl, 7); Vector_<> sp, tm(1, 0.5); sp.push_back(80); sp.push_back(125); Matrix_<Number_> vo(2, 1); double y[2]; Number_::SetTape(*new Tape_()); bool up = sym_choice("rising", 2); for (int i = 0; i < 2; ++i) { y[i] = c == 2 ? ((i == 1) == up ? 0.5 : 0.25) : (i == 1) == up ? sym_range(VN[2 * i], 0.35, 0.6) : sym_range(VN[2 * i], 0.05, 0.3); vo(i, 0) = Number_(y[i]); } int reg = sym_choice("region", 3); double x0 = reg == 0 ? sym_range("x", 4.4, 4.8) : reg == 1 ? sym_range("x", 4, 4.37) : sym_range("x", 4.85, 5.2), s = std::exp(x0), r = sym_range("rate", -0.1, 0.1), q = sym_range("repo", -0.1, 0.1);
    Dupire_<Number_> proto(Number_(s), Number_(r), Number_(q), sp, tm, vo, 5.0); auto mdl = proto.Clone(); mdl->Allocate(tl, defs); Number_::Tape()->Rewind(); for (auto* x : mdl->Parameters()) x->PutOnTape(); mdl->Init(tl, defs); Scenario_<Number_> p; AllocatePath(defs, p); InitializePath(p); Number_::Tape()->Mark(); Vector_<> g; for (int i = 0; i < k; ++i) g.push_back(i == 1 ? (up ? 1.5 : -1.0) : up ? sym_range(GN[i], 1, 2) : sym_range(GN[i], -2, -0.1)); 
    Vector_<> ls; ls.push_back(std::log(80.0)); ls.push_back(std::log(125.0)); double x = x0, dx[5] = {1 / s, 0, 0, 0, 0}; for (int i = 0; i < k; ++i) { for (int j = 0; j < 2; ++j) ASSUME((x - ls[j] > 1e-6) | (x - ls[j] < -1e-6)); double kx, v = Lin(ls, y, x, &kx), w0 = x <= ls[0] ? 1 : x >= ls[1] ? 0 : 1 - (x - ls[0]) / (ls[1] - ls[0]), f = g[i] - v, dt = 1.0; double nd[5]; for (int j = 0; j < 5; ++j) nd[j] = dx[j] + f * kx * dx[j]; nd[1] += dt; nd[2] -= dt; nd[3] += f * w0; nd[4] += f * (1 - w0); for (int j = 0; j < 5; ++j) dx[j] = nd[j]; x += (r - q) * dt - 0.5 * v * v + v * g[i]; }
    double ex = std::exp(x); ASSUME((ex > 1) & (ex < 5000)); ASSUME((s > 40) & (s < 200)); mdl->GeneratePath(g, &p); Number_ res = log(p[n - 1].spot_); res.PropagateToMark(); Number_::PropagateMarkToStart();
    CLOSE(res.value(), x, "a differentiated local-vol path has the values of the plain one"); for (int j = 0; j < 5; ++j) CLOSE(mdl->Parameters()[j]->Adjoint(), dx[j], "the adjoint of a local-vol parameter is the derivative of the path, the slope of the vol in the spot included");
}
HARNESS(h_fill) {
    int n = 1 + sym_choice("points", 3), add = sym_choice("added", 3); Vector_<> o; double x = n > 2 ? 0 : sym_range("x0", 0, 2); o.push_back(x); for (int i = 1; i < n; ++i) { x += sym_range(TN[i], 0.001, n > 2 ? 2.3 : 3.5); o.push_back(x); } double mn = 0.01; Vector_<> ad; if (add) ad.push_back(sym_range("a", 0, 4)); if (add == 2) ad.push_back(ad[0] + 1.5); Vector_<> f = add ? FillData(o, 1.0, mn, ad.begin(), ad.end()) : FillData(o, 1.0, mn); ASSERT(f.size() >= o.size(), "filling keeps the points");
    for (size_t i = 0; i + 1 < f.size(); ++i) { ASSERT(f[i] < f[i + 1], "a filled grid is increasing"); ASSERT(f[i + 1] - f[i] < 1.0 + mn + 1e-9, "a filled grid has no gap beyond the maximum"); } size_t k = 0; for (size_t i = 0; i < f.size() && k < o.size(); ++i) if (f[i] == o[k]) ++k; ASSERT(k == o.size(), "every original point is in the filled grid"); for (double z : ad) { bool ok = false; for (double w : f) ok |= (w - z <= mn) & (z - w <= mn); ASSERT(ok, "every added point is in the filled grid up to the tolerance"); }
}
HARNESS(h_data) {
    double s = sym_range("spot", 1, 200), v = sym_range("vol", 0.01, 1), r = sym_range("rate", -0.2, 0.2), q = sym_range("div", -0.2, 0.2); int c = sym_choice("kind", 5); if (c == 0) { auto d = new BSModelData_("m", s, v, r, q); Handle_<ModelData_> h(d); auto m = CreateModel<double>(h); ASSERT(m->NumParams() == 4 && d->parameterLabels_ == m->ParameterLabels(), "the data's labels are the model's"); ASSERT((*m->Parameters()[0] == s) & (*m->Parameters()[1] == v) & (*m->Parameters()[2] == r) & (*m->Parameters()[3] == q), "a model built from data has its parameters in place"); auto a = dynamic_cast<BlackScholes_<double>*>(m.get()); ASSERT(a && (a->Spot() == s) & (a->Vol() == v) & (a->Rate() == r) & (a->Div() == q), "accessors read the parameters"); }
    else if (c == 1) { Vector_<> sp, tm; sp.push_back(90); sp.push_back(110); tm.push_back(1); Matrix_<> vo(2, 1); vo(0, 0) = v; vo(1, 0) = q; Handle_<ModelData_> h(new DupireModelData_("m", s, r, 0.03, sp, tm, vo)); auto m = CreateModel<double>(h); ASSERT(m->NumParams() == 5, "a local-vol model has its rates and vols as parameters"); ASSERT((*m->Parameters()[0] == s) & (*m->Parameters()[1] == r) & (*m->Parameters()[2] == 0.03) & (*m->Parameters()[3] == v) & (*m->Parameters()[4] == q), "a model built from data has its parameters in place"); }
    else if (c == 2) { Handle_<ModelData_> h; ASSERT(throws_([&] { CreateModel<double>(h); }), "no data, no model"); }
    else if (c == 4) { Vector_<> none, one(1, 1.0); Vector_<SampleDef_> nd; Matrix_<> vo(1, 1); vo(0, 0) = v; Handle_<ModelData_> h; if (sym_choice("dupire", 2)) h.reset(new DupireModelData_("m", s, r, q, one, one, vo)); else h.reset(new BSModelData_("m", s, v, r, q)); auto m = CreateModel<double>(h); m->Allocate(none, nd); m->Init(none, nd); Scenario_<> p; ASSERT(m->SimDim() == 0, "a product with no dates left needs no draws"); m->GeneratePath(none, &p); ASSERT(p.empty(), "a product with no dates left has an empty path"); }
    else { BSModelData_ d("m", s, v, r, q); Vector_<Handle_<Slide_>> sl(sym_choice("slides", 3)); std::unique_ptr<ModelData_> u(static_cast<const ModelData_&>(d).MutantModel(String_("n"), sl)); auto b = dynamic_cast<BSModelData_*>(u.get()); ASSERT(b && b->Name() == "n" && (b->spot_ == s) & (b->vol_ == v) & (b->rate_ == r) & (b->div_ == q), "a mutant has its new name and the data of the original"); ASSERT(d.Name() == "m", "making a mutant leaves the original as it was"); }
}
