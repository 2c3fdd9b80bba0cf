//@ prop C26
//@ threads yes
//@ src dal/concurrency/threadpool.cpp dal/script/parser.cpp dal/script/event.cpp dal/storage/globals.cpp dal/string/strings.cpp dal/math/cell.cpp dal/math/cellutils.cpp dal/math/vectors.cpp dal/model/blackscholes.cpp dal/model/dupire.cpp dal/storage/archive.cpp dal/math/aad/tape.cpp dal/math/aad/aad.cpp
//@ bounds Monte Carlo with one worker besides the caller: one to three paths with all normals symbolic, 1024, 1025 and 2051 paths (one and two batches) with fixed market and draws; Black-Scholes, two dates, interpreted and compiled, plain and differentiated; an error on any of three paths; every schedule with at most one preemption
//@ stubs the random generator is the harness's own: path n has arbitrary normals z[n], and skipping to n starts there (C23 shows the real generators do)
//@ run h_plain preempt=1 race budget=60
//@ run h_aad preempt=1 race budget=60
//@ run h_batch preempt=0 race budget=90 steps=400000000
//@ run h_batch preempt=1 budget=60 tbudget=600 tier=thorough steps=4000000000
//@ run h_error preempt=1 race budget=60
//@ run h_results budget=30
namespace Dal { }
#include "script.h"
#include <dal/script/simulation.hpp>
static double Z[3][2]; static int zAt[3], failAt = -1, *visits = nullptr; static const char* ZN[6] = {"z00", "z01", "z10", "z11", "z20", "z21"};
struct Rng_ : Random_ { size_t d, at = 0; explicit Rng_(size_t n) : d(n) {} void FillUniform(Vector_<>*) override { THROW("not used"); } void FillNormal(Vector_<>* v) override { if ((int)at == failAt) THROW("path fails"); for (size_t i = 0; i < v->size(); ++i) { (*v)[i] = visits ? 0.25 * (at % 5) : 0; for (int k = 0; k < 3; ++k) if (zAt[k] == (int)at) (*v)[i] = Z[k][i]; } if (visits && at < 2100) ++visits[at]; ++at; } void SkipTo(size_t n) override { at = n; } Random_* Clone() const override { return new Rng_(*this); } size_t NDim() const override { return d; } };
namespace Dal::Script { std::unique_ptr<Random_> CreateRNG(const String_&, size_t n, bool) { return std::make_unique<Rng_>(n); } }
static ScriptProduct_ prd(bool today) { Global::Dates_::SetEvaluationDate(Date_(2024, 1, 1)); Vector_<Cell_> d; Vector_<String_> e; d.push_back(Cell_(String_("STRIKE"))); e.push_back(String_("8.5")); d.push_back(Cell_(Date_(2024, 1, 1).AddDays(today ? 0 : 365))); e.push_back(String_("a = spot()")); d.push_back(Cell_(Date_(2024, 1, 1).AddDays(730))); e.push_back(String_("b = a * STRIKE c pays b + spot()")); return ScriptProduct_(d, e, String_("c")); }
static void draw(int n, int at0, int at1, int at2) { zAt[0] = at0; zAt[1] = at1; zAt[2] = at2; for (int k = 0; k < 3; ++k) for (int i = 0; i < 2; ++i) Z[k][i] = k < n ? sym_range(ZN[2 * k + i], -2, 2) : 0; }
struct Val { double pv, dS, dV, dR, dQ, dK; };
static Val path(const double* z, bool today, double s, double v, double r, double q) { double x1 = (r - q - 0.5 * v * v) + v * z[0], x2 = today ? (r - q - 0.5 * v * v) * 2 + v * std::sqrt(2.0) * z[0] : x1 + (r - q - 0.5 * v * v) + v * z[1], a = today ? s : s * std::exp(x1), b = s * std::exp(x2), df = std::exp(-2 * r); Val u; u.pv = (8.5 * a + b) * df; double w1 = today ? 0 : z[0] - v, w2 = today ? std::sqrt(2.0) * z[0] - 2 * v : z[0] + z[1] - 2 * v, t1 = today ? 0 : 1; u.dS = u.pv / s; u.dV = (8.5 * a * w1 + b * w2) * df; u.dR = (8.5 * a * t1 + b * 2) * df - 2 * u.pv; u.dQ = -(8.5 * a * t1 + b * 2) * df; u.dK = a * df; return u; }
static SimResults_ sim(bool aad, ScriptProduct_& p, const Handle_<ModelData_>& m, size_t n, bool comp, int ifs = 0) { if (comp) p.Compile(); return aad ? MCSimulation<Number_>(p, m, n, "x", false, comp, ifs, 0.01) : MCSimulation<double>(p, m, n, "x", false, comp, -1, 0.01); }
HARNESS(h_plain) {
    bool today = sym_choice("today", 2), comp = sym_choice("compiled", 2); int n = sym_choice("paths", 4); draw(n, 0, 1, 2); double s = sym_range("spot", 1, 20), v = sym_range("vol", 0.05, 0.5), r = sym_range("rate", -0.1, 0.1), q = sym_range("div", -0.1, 0.1); ScriptProduct_ p = prd(today); p.PreProcess(false, false); Handle_<ModelData_> m(new BSModelData_("m", s, v, r, q)); SimResults_ res = sim(false, p, m, n, comp);
    double e = 0; for (int i = 0; i < n; ++i) e += path(Z[i], today, s, v, r, q).pv; CLOSE(res.aggregated_, e, "a simulation is the sum of its paths' payoffs"); ThreadPool_::GetInstance()->Stop();
}
HARNESS(h_aad) {
    Number_::SetTape(*new Tape_()); bool today = sym_choice("today", 2), comp = sym_choice("compiled", 2); int n = today ? 1 + sym_choice("paths", 2) : 1; draw(n, 0, 1, 2); double s = sym_range("spot", 1, 20), v = sym_range("vol", 0.05, 0.5), r = sym_range("rate", -0.1, 0.1), q = sym_range("div", -0.1, 0.1); for (int i = 0; i < n; ++i) { for (int j = 0; j < 2; ++j) ASSUME(Z[i][j] > 0.1); Val u = path(Z[i], today, s, v, r, q); double a = u.dK, b = u.pv - 8.5 * a; ASSUME((a > 0.5) & (a < 100)); ASSUME((b > 0.5) & (b < 100)); } { double d = std::exp(-2 * r), ex = std::exp(2 * r); ASSUME((d > 0.5) & (d < 2) & (ex > 0.5) & (ex < 2)); }
    ScriptProduct_ p = prd(today); p.PreProcess(true, true); Handle_<ModelData_> m(new BSModelData_("m", s, v, r, q)); Tape_* tp = Number_::Tape(); SimResults_ res = sim(true, p, m, n, comp); ASSERT(Number_::Tape() == tp, "a simulation gives the caller's tape back");
    Val t{0, 0, 0, 0, 0, 0}; for (int i = 0; i < n; ++i) { Val u = path(Z[i], today, s, v, r, q); t.pv += u.pv; t.dS += u.dS; t.dV += u.dV; t.dR += u.dR; t.dQ += u.dQ; t.dK += u.dK; } CLOSE(res.aggregated_, t.pv, "a differentiated simulation has the plain one's value"); const double E[5] = {t.dS, t.dV, t.dR, t.dQ, t.dK}; static const char* N[5] = {"spot", "vol", "rate", "div", "STRIKE"}; ASSERT(res.names_.size() == 5, "one sensitivity for each model parameter and constant"); for (int i = 0; i < 5; ++i) { CLOSE(res.risks_[i], E[i] / n, "a sensitivity is the average of the paths' derivatives"); CLOSE(res[String_(N[i])], E[i] / n, "a sensitivity is found by its name"); } ThreadPool_::GetInstance()->Stop();
}
HARNESS(h_batch) {
    static const int NP[3] = {1024, 1025, 2051}; bool comp = sym_choice("compiled", 2), aad = sym_choice("aad", 2); int n = NP[sym_choice("paths", 3)]; Number_::SetTape(*new Tape_()); draw(0, -1, -1, -1); const double s = 10, v = 0.25, r = 0.03125, q = 0.015625; static int seen[2100]; for (int i = 0; i < 2100; ++i) seen[i] = 0; visits = seen; ScriptProduct_ p = prd(true); p.PreProcess(aad, aad); Handle_<ModelData_> m(new BSModelData_("m", s, v, r, q)); SimResults_ res = sim(aad, p, m, n, comp); double e = 0, d = 0; for (int i = 0; i < 5; ++i) { double z[2] = {0.25 * i, 0}; Val u = path(z, true, s, v, r, q); int k = (n + 4 - i) / 5; e += k * u.pv; d += k * u.dV; }
    bool once = true; for (int i = 0; i < 2100; ++i) once &= seen[i] == (i < n); ASSERT(once, "the batches of a simulation together draw every path once"); ASSERT((res.aggregated_ - e < 1e-6) & (e - res.aggregated_ < 1e-6), "batches together sum every path once"); if (aad) ASSERT((res.risks_[1] - d / n < 1e-8) & (d / n - res.risks_[1] < 1e-8), "batches' sensitivities together are the average over every path once"); ThreadPool_::GetInstance()->Stop();
}
HARNESS(h_error) {
    bool comp = sym_choice("compiled", 2), aad = sym_choice("aad", 2); failAt = sym_choice("fails", 4); Number_::SetTape(*new Tape_()); Tape_* tp = Number_::Tape(); draw(0, -1, -1, -1); double s = sym_range("spot", 1, 20), v = sym_range("vol", 0.05, 0.5), r = sym_range("rate", -0.1, 0.1), q = sym_range("div", -0.1, 0.1); { double a = std::exp(r - q - 0.5 * v * v), d = std::exp(-2 * r); ASSUME((a > 0.5) & (a < 2) & (d > 0.5) & (d < 2)); } ScriptProduct_ p = prd(false); p.PreProcess(false, false); Handle_<ModelData_> m(new BSModelData_("m", s, v, r, q)); bool t = throws_([&] { sim(aad, p, m, 3, comp); }); ASSERT(t == (failAt < 3), "an error on a path is an error of the simulation, not a smaller sum"); ASSERT(Number_::Tape() == tp, "a failed simulation gives the caller's tape back"); failAt = -1; SimResults_ res = sim(false, p, m, 1, false); const double zero[2] = {0, 0}; CLOSE(res.aggregated_, path(zero, false, s, v, r, q).pv, "a simulation after a failed one is as good as ever"); ThreadPool_::GetInstance()->Stop();
}
HARNESS(h_results) {
    Vector_<String_> n; n.push_back("a"); n.push_back("b"); n.push_back("c"); double x[3] = {sym_range("x0", -5, 5), sym_range("x1", -5, 5), sym_range("x2", -5, 5)}; auto* r = new SimResults_(n); for (int i = 0; i < 3; ++i) { CLOSE((*r)[n[i]], 0.0, "sensitivities start at zero"); r->risks_[i] = x[i]; } SimResults_ c(*r), d(n); d = *r; if (sym_choice("dropped", 2)) { for (auto& z : r->risks_) z = 99; delete r; r = nullptr; } for (int i = 0; i < 3; ++i) { CLOSE(c[n[i]], x[i], "a copy of results has its own sensitivities"); CLOSE(d[n[i]], x[i], "assigned results have their own sensitivities"); c.risks_[i] += 1; CLOSE(c[n[i]], x[i] + 1, "a sensitivity by name is the one in the list"); } ASSERT(throws_([&] { c[String_("zz")]; }), "an unknown name is refused"); ThreadPool_::GetInstance()->Stop();
}
