//@ prop C31
//@ threads yes
//@ src public/src/value.cpp dal/concurrency/threadpool.cpp dal/script/parser.cpp dal/script/event.cpp dal/storage/globals.cpp dal/string/strings.cpp dal/math/cell.cpp dal/math/cellutils.cpp dal/math/vectors.cpp dal/model/blackscholes.cpp dal/model/dupire.cpp dal/storage/archive.cpp dal/math/aad/tape.cpp dal/math/aad/aad.cpp
//@ bounds prices of a two-date Black-Scholes product with a constant, for one or two paths with all normals and market data symbolic, with and without differentiation, valued twice in a row; refused requests: no paths, negative paths, no product, no model, another model
//@ stubs the random generator is the harness's own: path n has arbitrary normals z[n] (C23 shows the real generators skip correctly)
//@ run h_price preempt=0 budget=90
//@ run h_refuse preempt=0 budget=60
namespace Dal { }
#include "script.h"
#include <public/src/value.hpp>
#include <public/src/script.hpp>
#include <public/src/models.hpp>
static double Z[2]; static String_* method; static bool bridge; static size_t dims;
struct Rng_ : Random_ { size_t d, at = 0; explicit Rng_(size_t n) : d(n) {} void FillUniform(Vector_<>*) override { THROW("not used"); } void FillNormal(Vector_<>* v) override { for (size_t i = 0; i < v->size(); ++i) (*v)[i] = at < 2 ? Z[at] : 0; ++at; } void SkipTo(size_t n) override { at = n; } Random_* Clone() const override { return new Rng_(*this); } size_t NDim() const override { return d; } };
namespace Dal::Script { std::unique_ptr<Random_> CreateRNG(const String_& m, size_t n, bool b) { method = new String_(m); bridge = b; dims = n; return std::make_unique<Rng_>(n); } }
static Handle_<ScriptProductData_> prd() { Global::Dates_::SetEvaluationDate(Date_(2024, 1, 1)); Vector_<Cell_> d; Vector_<String_> e; d.push_back(Cell_(String_("STRIKE"))); e.push_back(String_("8.5")); d.push_back(Cell_(Date_(2024, 1, 1))); e.push_back(String_("a = spot()")); d.push_back(Cell_(Date_(2024, 1, 1).AddDays(730))); e.push_back(String_("b = a * STRIKE c pays b + spot()")); return NewScriptProduct("p", d, e); }
HARNESS(h_price) {
    Number_::SetTape(*new Tape_()); bool aad = sym_choice("aad", 2), bb = sym_choice("bridge", 2); int n = 1 + sym_choice("paths", 2); Z[0] = sym_range("z0", 0.25, 2); Z[1] = sym_range("z1", 0.25, 2); double s = sym_range("spot", 1, 20), v = sym_range("vol", 0.05, 0.5), r = sym_range("rate", -0.1, 0.1), q = sym_range("div", -0.1, 0.1), df = std::exp(-2 * r); const double R2 = std::sqrt(2.0);
    double pv = 0, dS = 0, dV = 0, dR = 0, dQ = 0, dK = 0; for (int i = 0; i < n; ++i) { double b = s * std::exp((r - q - 0.5 * v * v) * 2 + v * R2 * Z[i]); ASSUME((b > 0.5) & (b < 100)); pv += (8.5 * s + b) * df; dS += (8.5 + b / s) * df; dV += b * (R2 * Z[i] - 2 * v) * df; dR += 2 * b * df - 2 * (8.5 * s + b) * df; dQ -= 2 * b * df; dK += s * df; } { double ex = std::exp(2 * r); ASSUME((df > 0.5) & (df < 2) & (ex > 0.5) & (ex < 2)); }
    Handle_<ScriptProductData_> p = prd(); Handle_<ModelData_> m = NewBSModelData("m", s, v, r, q);
    for (int k = 0; k < 2; ++k) { auto res = ValueByMonteCarlo(p, m, n, k ? "IRN" : "mrg32", bb, aad, 0.01); ASSERT(*method == (k ? "IRN" : "mrg32") && bridge == bb && dims == 1, "the generator asked for is used, with one normal per date"); CLOSE(res.at("PV") * n, pv, "a price is the average of the paths' payoffs, the same with and without differentiation, again and again");
        ASSERT(res.size() == (aad ? 6u : 1u), "a price comes with one sensitivity for each parameter and constant exactly when asked for"); if (aad) { CLOSE(res.at("d_spot") * n, dS, "sensitivities are the derivatives of the price"); CLOSE(res.at("d_vol") * n, dV, "sensitivities are the derivatives of the price"); CLOSE(res.at("d_rate") * n, dR, "sensitivities are the derivatives of the price"); CLOSE(res.at("d_div") * n, dQ, "sensitivities are the derivatives of the price"); CLOSE(res.at("d_STRIKE") * n, dK, "sensitivities are the derivatives of the price"); } }
    ThreadPool_::GetInstance()->Stop();
}
struct Other_ : ModelData_ { Other_() : ModelData_("OtherModelData_", "o") {} void Write(Archive::Store_&) const override {} ModelData_* MutantModel(const String_*, const Slide_*) const override { return nullptr; } };
HARNESS(h_refuse) {
    Number_::SetTape(*new Tape_()); int k = sym_choice("case", 6); Handle_<ScriptProductData_> p = prd(); Handle_<ModelData_> m = NewBSModelData("m", 10, 0.2, 0, 0), o(new Other_); bool aad = sym_choice("aad", 2); int bad = (int)sym_i64("n", -3, 0);
    bool t = throws_([&] { (void)ValueByMonteCarlo(k == 1 ? Handle_<ScriptProductData_>() : p, k == 2 ? Handle_<ModelData_>() : k == 3 ? o : m, k == 0 ? bad : 1, "x", false, aad); }); ASSERT(t == (k < 4), "a price is refused exactly when product, model or number of paths make no sense"); ThreadPool_::GetInstance()->Stop();
}
