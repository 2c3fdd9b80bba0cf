//@ prop C16
//@ src dal/script/parser.cpp dal/script/event.cpp dal/script/event/schedule.cpp dal/script/visitor/domain.cpp dal/storage/globals.cpp dal/string/strings.cpp dal/time/daybasis.cpp dal/time/dateutils.cpp dal/time/date.cpp dal/math/cell.cpp dal/math/cellutils.cpp
//@ bounds generated products: one of 8 preludes, conditions of one or two comparisons out of 12 forms (continuous and discrete operands), if/else nested up to two deep; spots any reals in [-2, 1.9], smoothing width 0.02 or given on the comparison; crisp agreement for operands at least one width from every kink
//@ run h_away split=12 budget=90
//@ run h_join split=12 budget=90
//@ run h_nest split=8 budget=90
//@ run h_inside split=6 budget=60
//@ run h_multi split=4 budget=60
#include "script.h"
static const int NP = 8, NC = 12;
static const char* PRE[NP] = {"x = 1", "x = 0 if spot() > 1 then x = 1 end", "if spot() > 1 then x = 1 else x = -1 end", "x = MAX(spot(), 1)", "x = 0", "x = 2 if spot() < 1 then x = 3 end", "x = 0 if spot() > 1 then if spot() > 1.5 then x = 2 end else x = -2 end", "x = 0 if spot() != 1 then x = 4 end"};
static const char* CO[NC] = {"spot() > 0.5", "spot() < 0.5", "spot() >= 0.5", "spot() <= 0.5", "spot() = 0.5", "spot() != 0.5", "x = 1", "x != 1", "x > 0", "x >= 0", "x < 2", "2 * spot() - 1 > 0 ;0.01"};
static bool away(double v) { bool r = true; static const double K[3] = {0.5, 1, 1.5}; for (int i = 0; i < 3; ++i) r = r & ((v > K[i] + 0.05) | (v < K[i] - 0.05)); return r; }
// spots kept away from all the kinks of the generated conditions
static void run(const char* const* ev, int n, const double* S, int reuse) {
    ScriptProduct_ p = product(ev, n, "z"), q = product(ev, n, "z"); size_t m = p.PreProcess(true, false); q.PreProcess(false, true); AAD::Scenario_<double> s(n); for (int i = 0; i < n; ++i) { s[i].spot_ = S[i]; s[i].numeraire_ = 1; }
    FuzzyEvaluator_<double> F = p.BuildFuzzyEvaluator<double>(m, 0.02); Evaluator_<double> E = q.BuildEvaluator<double>(); if (reuse) { FuzzyEvaluator_<double> G(F); p.Evaluate(s, F); F = G; } p.Evaluate(s, F); q.Evaluate(s, E);
    for (int i = 0; i < (int)p.VarNames().size(); ++i) CLOSE(F.VarVals()[i], E.VarVals()[varIdx(q, p.VarNames()[i].c_str())], "away from the kinks the smoothed evaluation equals the exact one");
}
static void spots(double* S) { S[0] = sym_range("s0", -2, 1.9); S[1] = sym_range("s1", -2, 1.9); ASSUME(away(S[0]) & away(S[1])); }
HARNESS(h_away) { int c = sym_choice("cond", NC), p = sym_choice("prelude", NP), el = sym_choice("else", 2); double S[2]; spots(S); Txt t; t << "if " << CO[c] << " then y = 2 z pays x "; if (el) t << "else y = 3 "; t << "end z = z + y"; const char* ev[2] = {PRE[p], t.b}; run(ev, 2, S, el); }
HARNESS(h_join) { int c1 = sym_choice("c1", NC), c2 = sym_choice("c2", NC), j = sym_choice("join", 3), p = (c1 + 3 * c2) % NP; double S[2]; spots(S); Txt t; t << "if " << (j == 2 ? "(" : "") << CO[c1]; if (j == 2) t << " or x = 0) and (" << CO[c2] << " or spot() > 0.5)"; else t << (j ? " or " : " and ") << CO[c2]; t << " then y = 2 else y = x end z = z + y"; const char* ev[2] = {PRE[p], t.b}; run(ev, 2, S, 0); }
HARNESS(h_nest) {
    int p = sym_choice("prelude", NP), c1 = sym_choice("c1", NC), q = sym_choice("q", 3), c2 = (c1 + 7 * p + 5 * q) % NC; double S[2]; spots(S); Txt t;
    if (q == 0) t << "if " << CO[c1] << " then if " << CO[c2] << " then y = 1 else y = 2 end else x = 5 end if y = 1 then z = 1 else z = 2 + x end"; else if (q == 1) t << "if spot() > 0.5 then if " << CO[c1] << " then x = 1 else x = 2 end end if " << CO[c2] << " then z = x + 1 end"; else t << "if " << CO[c1] << " then y = 1 else if " << CO[c2] << " then y = 2 else if spot() > 1 then y = 3 end end end z = y";
    const char* ev[2] = {PRE[p], t.b}; run(ev, 2, S, 1);
}
// inside the smoothing width: the degree of truth moves linearly and the branches are mixed with it
static double lin(double x, double e) { return x < -e / 2 ? 0 : x > e / 2 ? 1 : (x + e / 2) / e; }
static double fly(double x, double e) { double a = x < 0 ? -x : x; return a > e / 2 ? 0 : (e / 2 - a) / (e / 2); }
HARNESS(h_inside) {
    int c = sym_choice("cond", 6), own = sym_choice("own", 2), nest = sym_choice("nest", 3); double S = sym_range("s", 0, 1), W = own ? 0.5 : 0.1; static const char* C[6] = {" > ", " < ", " >= ", " <= ", " = ", " != "}; Txt t; t << "y = 1 if spot()" << C[c] << "0.5" << (own ? " ;0.5" : "");
    double d = S - 0.5, g = c == 0 || c == 2 ? lin(d, W) : c == 4 ? fly(d, W) : c == 5 ? 1 - fly(d, W) : lin(-d, W); double e, f;
    if (nest == 0) { t << " then x = 3 y = y + spot() else x = 5 end"; e = g * 3 + (1 - g) * 5; f = 1 + g * S; } else if (nest == 1) { t << " and spot() > 0.25 then x = 3 end"; double h = lin(S - 0.25, 0.1); e = g * h * 3; f = 1; } else { t << " or spot() > 0.75 then x = 3 y = 2 end"; double h = lin(S - 0.75, 0.1); e = (g + h - g * h) * 3; f = 1 + (g + h - g * h); }
    const char* ev[1] = {t.b}; ScriptProduct_ p = product(ev, 1); size_t m = p.PreProcess(true, false); AAD::Scenario_<double> s(1); s[0].spot_ = S; s[0].numeraire_ = 1; FuzzyEvaluator_<double> F = p.BuildFuzzyEvaluator<double>(m, 0.1); p.Evaluate(s, F);
    CLOSE(F.VarVals()[varIdx(p, "x")], e, "inside the width the branches are mixed by a degree of truth that is linear in the operand"); CLOSE(F.VarVals()[varIdx(p, "y")], f, "variables changed by one branch only are mixed with their old value");
}
HARNESS(h_multi) {
    int k = sym_choice("k", 4); double S = sym_range("s", -2, 2); ASSUME((S > 0.1) | (S < -0.1)); double T = sym_range("t", -1, 1), g = lin(T, 0.5), h = S > 0 ? 1 : 0; 
    static const char* P[4] = {"if spot() > 0 then x = 1 else x = 2 end", "x = 1 if spot() > 0 then x = 3 end", "if spot() > 0 then x = 1 y = 1 end", "x = 7"}; static const char* Q[4] = {"if spot() > 0 ;0.5 then if x = 1 then z = 10 else z = 20 end else z = 30 end", "if spot() > 0 ;0.5 then x = x + 1 end z = x", "if spot() > 0 ;0.5 then if y = 1 then z = x + 1 end else if y = 0 then z = 4 end end", "if spot() > 0 ;0.5 then if x = 7 then z = 1 end end"};
    double e = k == 0 ? g * (h > 0 ? 10 : 20) + (1 - g) * 30 : k == 1 ? (h > 0 ? 3 : 1) + g : k == 2 ? (h > 0 ? g * 2 : (1 - g) * 4) : g; const char* ev[2] = {P[k], Q[k]}; ScriptProduct_ p = product(ev, 2, "z"); size_t m = p.PreProcess(true, false); AAD::Scenario_<double> s(2); s[0].spot_ = S; s[1].spot_ = T; s[0].numeraire_ = s[1].numeraire_ = 1; FuzzyEvaluator_<double> F = p.BuildFuzzyEvaluator<double>(m, 0.02); p.Evaluate(s, F); CLOSE(F.VarVals()[varIdx(p, "z")], e, "nested smoothed conditions mix level by level");
}
