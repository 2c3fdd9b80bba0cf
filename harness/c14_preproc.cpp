//@ prop C14
//@ src dal/script/parser.cpp dal/script/event.cpp dal/script/event/schedule.cpp dal/script/visitor/domain.cpp dal/storage/globals.cpp dal/string/strings.cpp dal/time/daybasis.cpp dal/time/dateutils.cpp dal/time/date.cpp dal/math/cell.cpp dal/math/cellutils.cpp
//@ bounds generated products: one of 10 preludes (assignments, conditional assignments, payments, past events), a condition of one or two comparisons out of 20 forms, if/else nested up to two deep; spots any reals in [-2, 2] ([0.5, 2] where a logarithm is taken), numeraires in [1, 2]
//@ run h_single split=10 budget=100
//@ run h_join split=20 budget=120
//@ run h_nest split=10 budget=100
#include "script.h"
static const char* PRE[10] = {"x = 1", "x = 0 if spot() > 1 then x = 1 end", "if spot() > 1 then x = 1 else x = -1 end", "x = MAX(spot(), 1)", "x pays 1", "x pays -spot()", "x = 2 * K1 - 2.5", "x = 0 if spot() > 1 then if spot() > 1.5 then x = 2 end else x = -2 end", "x = MIN(-spot(), 0) - 1", "x = 3 if spot() > 1 then x = x - 1 x = -x end"};
static const char* CO[20] = {"x = 1", "x > 0", "x >= 0", "x != 2", "x < spot()", "MAX(spot(), 0) >= 0", "SQRT(MAX(spot(), 0.5)) < 0", "LOG(MAX(spot(), 0.5)) < 0", "EXP(spot()) > 0", "MIN(spot(), -1) < 0", "x * spot() > 0", "x / MAX(spot(), 1) >= 0", "MAX(spot(), 0.5) ^ 2 <= 1", "-x < 0", "1 / MAX(spot(), 1) <= 1", "x * x >= 0", "x - x = 0", "K1 > K2", "SQRT(4) = x", "1 / (x + 4) > 0.25"};
static const int NP = 10, NC = 20;
static void cmp(const char* const* ev, int n, int past, const double* S, const double* N) {
    double v[4][8]; int nv = 0; const char* W[4] = {"domain processing", "compilation after domain processing", "fuzzy domain processing", ""};
    for (int w = 0; w < 4; ++w) {
        ScriptProduct_ p = product(ev, n, "z", past); p.PreProcess(w == 3, w == 0); int m = n - (past ? 1 : 0); AAD::Scenario_<double> s(m); for (int i = 0; i < m; ++i) { s[i].spot_ = S[i]; s[i].numeraire_ = N[i]; }
        nv = p.VarNames().size(); if (w == 2) { p.Compile(); EvalState_<double> E = p.BuildEvalState<double>(); p.EvaluateCompiled(s, E); for (int i = 0; i < nv; ++i) v[w][i] = E.VarVals()[i]; } else { Evaluator_<double> E = p.BuildEvaluator<double>(); p.Evaluate(s, E); for (int i = 0; i < nv; ++i) v[w][i] = E.VarVals()[i]; }
        if (w) for (int i = 0; i < nv; ++i) CLOSE(v[w][i], v[0][i], w == 1 ? "domain processing does not change what a script computes" : w == 2 ? "compilation after domain processing does not change what a script computes" : "fuzzy domain processing does not change the crisp evaluation");
    }
}
static double spots(double* S, double* N) { S[0] = sym_range("s0", -2, 2); S[1] = sym_range("s1", -2, 2); N[0] = sym_range("n0", 1, 2); N[1] = sym_range("n1", 1, 2); return 0; }
HARNESS(h_single) {
    int p = sym_choice("prelude", NP), c = sym_choice("cond", NC), past = sym_choice("past", 2); double S[2], N[2]; spots(S, N); Txt t; t << "if " << CO[c] << " then y = 2 z pays x else y = 3 end z = z + y"; const char* ev[2] = {PRE[p], t.b}; cmp(ev, 2, past, S, N);
}
HARNESS(h_join) {
    int c1 = sym_choice("c1", NC), c2 = sym_choice("c2", NC), p = (c1 + 3 * c2) % NP, j = sym_choice("join", 3); double S[2], N[2]; spots(S, N); Txt t; t << "if "; if (j == 0) t << CO[c1] << " and " << CO[c2]; else if (j == 1) t << CO[c1] << " or " << CO[c2]; else t << "(" << CO[c1] << " or x = 0) and (spot() > 0 or " << CO[c2] << ")"; t << " then y = 2 else y = x end z = z + y"; const char* ev[2] = {PRE[p], t.b}; cmp(ev, 2, 0, S, N);
}
HARNESS(h_nest) {
    int p = sym_choice("prelude", NP), c1 = sym_choice("c1", NC), q = sym_choice("q", 4), c2 = (c1 + 7 * p + 5 * q) % NC; double S[2], N[2]; spots(S, N); Txt t;
    switch (q) { case 0: t << "if " << CO[c1] << " then if " << CO[c2] << " then y = 1 else y = 2 end else x = 5 end if y = 1 then z = 1 else z = 2 + x end"; break;
    case 1: t << "if spot() > 0 then if " << CO[c1] << " then x = 1 else x = 2 end end if " << CO[c2] << " then z = x + 1 end"; break;
    case 2: t << "if " << CO[c1] << " then x = x + 1 if " << CO[c2] << " then x = x + 2 end end z = x if x > 3 then z = 3 end"; break;
    default: t << "if " << CO[c1] << " then y = 1 else if " << CO[c2] << " then y = 2 else if spot() > 1 then y = 3 end end end z = y"; }
    const char* ev[2] = {PRE[p], t.b}; cmp(ev, 2, 0, S, N);
}
