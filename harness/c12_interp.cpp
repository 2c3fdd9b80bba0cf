//@ prop C12
//@ src dal/script/parser.cpp dal/script/event.cpp dal/script/event/schedule.cpp dal/storage/globals.cpp dal/string/strings.cpp dal/time/daybasis.cpp dal/time/dateutils.cpp dal/time/date.cpp dal/math/cell.cpp dal/math/cellutils.cpp
//@ bounds expressions of two nested operations (12 kinds each) over spot, numbers, macro constants and variables; conditions of up to two comparisons (6 comparators) joined by and/or; if/else nested two deep; two events; spots and constants any reals in [0.5, 2], numeraires in [1, 2]
//@ run h_expr split=12 budget=100
//@ run h_cond split=6 budget=90
//@ run h_nest split=4 budget=60
//@ run h_events split=3 budget=60
//@ run h_move budget=60
#include "script.h"
static Ex leaf(int k, double spot, double y, double k1) { Ex r; static const char* T[4] = {"spot()", "0.75", "y", "K1"}; r.t << T[k]; r.v = k == 0 ? spot : k == 1 ? 0.75 : k == 2 ? y : k1; return r; }
HARNESS(h_expr) {
    int o1 = sym_choice("op1", OPS), o2 = sym_choice("op2", OPS), a = sym_choice("a", 4), b = sym_choice("b", 4), c = o1 < 7 ? (a + 2 * b + o2) % 4 : 0, side = o1 < 7 ? sym_choice("side", 2) : 0;
    if (o2 >= 7 && b > 0) return;
    double S = sym_range("spot", 0.5, 2), N = sym_range("num", 1, 2), K = sym_range("K", 0.5, 2);
    Ex l = leaf(a, S, S + 1, K), r = leaf(b, S, S + 1, K), q = leaf(c, S, S + 1, K); ASSUME(domok(o2, l.v, r.v)); Ex in = opx(o2, l, r); const Ex& A = side ? q : in; const Ex& B = side ? in : q;
    ASSUME(domok(o1, A.v, B.v)); Ex e = opx(o1, A, B); Txt t; t << "y = spot() + 1 x = " << e.t << " z pays " << e.t; const char* ev[1] = {t.b};
    ScriptProduct_ p = product(ev, 1); p.IndexVariables(); Evaluator_<double> E = p.BuildEvaluator<double>();
    // the constants are inputs of the evaluator
    for (int i = 0; i < (int)p.ConstVarNames().size(); ++i) E.ConstVarVals()[i] = K;
    // variables start from the product's values; without pre-processing they are all zero
    Evaluator_<double> F(Vector_<>(p.VarNames().size(), 0.0), E.ConstVarVals()); AAD::Scenario_<double> s(1); s[0].spot_ = S; s[0].numeraire_ = N; p.Evaluate(s, F);
    CLOSE(F.VarVals()[varIdx(p, "x")], e.v, "an expression evaluates to its arithmetic value"); CLOSE(F.VarVals()[varIdx(p, "z")], e.v / N, "a payment adds its value divided by the numeraire");
    CLOSE(F.VarVals()[varIdx(p, "y")], S + 1, "an assignment stores its value");
}
static bool cmp(int k, double a, double b) { return k == 0 ? a == b : k == 1 ? a != b : k == 2 ? a < b : k == 3 ? a > b : k == 4 ? a <= b : a >= b; }
static const char* C[6] = {" = ", " != ", " < ", " > ", " <= ", " >= "};
HARNESS(h_cond) {
    int c1 = sym_choice("c1", 6), c2 = sym_choice("c2", 6), j = sym_choice("join", 4), el = sym_choice("else", 2); double S = sym_range("spot", -2, 2), N = sym_range("num", 1, 2);
    Txt t; t << "y = 2 if "; bool h, a = cmp(c1, S, 1.25), b = cmp(c2, 2 * S, S + 0.5), d = S > -1;
    if (j == 0) { t << "spot()" << C[c1] << "K1"; h = a; } else if (j == 1) { t << "spot()" << C[c1] << "K1 and 2 * spot()" << C[c2] << "spot() + K2"; h = a && b; } else if (j == 2) { t << "spot()" << C[c1] << "K1 or 2 * spot()" << C[c2] << "spot() + K2 and spot() > -1"; h = a || (b && d); } else { t << "(spot()" << C[c1] << "K1 or 2 * spot()" << C[c2] << "spot() + K2) and spot() > -1"; h = (a || b) && d; }
    t << " then x = 3 y = y + 1 "; if (el) t << "else x = 4 x pays spot() "; t << "end x = x + y"; const char* ev[1] = {t.b};
    ScriptProduct_ p = product(ev, 1); p.PreProcess(false, true); Evaluator_<double> E = p.BuildEvaluator<double>(); AAD::Scenario_<double> s(1); s[0].spot_ = S; s[0].numeraire_ = N; p.Evaluate(s, E);
    CLOSE(E.VarVals()[varIdx(p, "x")], h ? 6 : el ? 4 + S / N + 2 : 2, "exactly the statements of the branch taken are executed"); CLOSE(E.VarVals()[varIdx(p, "y")], h ? 3 : 2, "the other branch leaves its variables alone");
}
HARNESS(h_nest) {
    int k = sym_choice("prog", 4); double S = sym_range("spot", -2, 2); static const char* P[4] = {
        "if spot() > 0 then if spot() > 1 then x = 1 else x = 2 end y = 5 else if spot() > -1 then x = 3 else x = 4 end end",
        "if spot() > 0 then x = 1 if spot() > 1 then x = 2 end x = x + 10 end x = x + 100",
        "if spot() > 0 then x = 7 else if spot() > -1 then x = 8 end y = 1 end if y = 1 then x = x + 0.5 end",
        "if spot() > 0 and (spot() < 1 or spot() > 1.5) then if x = 0 then x = 1 end if x = 1 then x = x + 1 end end if x != 2 then x = 9 end"};
    double e, y = -1; switch (k) { case 0: e = S > 0 ? (S > 1 ? 1 : 2) : S > -1 ? 3 : 4; y = S > 0 ? 5 : 0; break; case 1: e = S > 0 ? (S > 1 ? 112 : 111) : 100; break; case 2: e = S > 0 ? 7 : S > -1 ? 8.5 : 0.5; break; default: e = S > 0 && (S < 1 || S > 1.5) ? 2 : 9; }
    ScriptProduct_ p = product(&P[k], 1); p.PreProcess(false, true); Evaluator_<double> E = p.BuildEvaluator<double>(); AAD::Scenario_<double> s(1); s[0].spot_ = S; s[0].numeraire_ = 1; p.Evaluate(s, E);
    ASSERT(E.VarVals()[varIdx(p, "x")] == e, "nested conditions execute exactly the branches taken"); if (y >= 0) ASSERT(E.VarVals()[varIdx(p, "y")] == y, "nested conditions leave other variables alone");
}
HARNESS(h_events) {
    int k = sym_choice("k", 3); double S[3], N[3]; static const char* SN[3] = {"s0", "s1", "s2"}; static const char* NN[3] = {"n0", "n1", "n2"}; for (int i = 0; i < 3; ++i) { S[i] = sym_range(SN[i], 0.5, 2); N[i] = sym_range(NN[i], 1, 2); }
    static const char* ev[3] = {"alive = 1 m = spot()", "m = MAX(m, spot()) if spot() > K1 then alive = 0 end x pays K2 * alive", "m = MAX(m, spot()) x pays alive * m"}; 
    ScriptProduct_ p = product(ev, 3); p.PreProcess(false, k == 0); Evaluator_<double> E = p.BuildEvaluator<double>(); Evaluator_<double> G = E; AAD::Scenario_<double> s(3); for (int i = 0; i < 3; ++i) { s[i].spot_ = S[i]; s[i].numeraire_ = N[i]; }
    p.Evaluate(s, E); if (k == 2) { p.Evaluate(s, G); p.Evaluate(s, E); }
    double al = S[1] > 1.25 ? 0 : 1, m = S[0]; m = S[1] > m ? S[1] : m; m = S[2] > m ? S[2] : m; double e = 0.5 * al / N[1] + al * m / N[2];
    CLOSE(E.VarVals()[p.PayOffIdx()], e, "events run in date order with their own spot and numeraire, each path from the initial state"); if (k == 2) CLOSE(G.VarVals()[p.PayOffIdx()], e, "a copied evaluator evaluates alike");
    ASSERT(p.EventDates().size() == 3 && p.PastEventDates().size() == 0 && p.TimeLine().size() == 3, "every future event has its time"); for (int i = 0; i < 3; ++i) CLOSE(p.TimeLine()[i], (evDate(i) - Date_(2024, 1, 1)) / 365.0, "event times are years from the evaluation date");
}
HARNESS(h_move) {
    double S = sym_range("spot", 0.5, 2); static const char* ev[1] = {"x = x + spot()"}; ScriptProduct_ p = product(ev, 1); p.PreProcess(false, true); AAD::Scenario_<double> s(1); s[0].spot_ = S; s[0].numeraire_ = 1;
    Evaluator_<double> A = p.BuildEvaluator<double>(); p.Evaluate(s, A); Evaluator_<double> B = std::move(A); p.Evaluate(s, B); CLOSE(B.VarVals()[0], S, "a moved evaluator keeps the initial state");
    Evaluator_<double> D = p.BuildEvaluator<double>(); D = B; p.Evaluate(s, D); CLOSE(D.VarVals()[0], S, "an assigned evaluator keeps the initial state"); Evaluator_<double> F = p.BuildEvaluator<double>(); F = std::move(B); p.Evaluate(s, F); CLOSE(F.VarVals()[0], S, "a move-assigned evaluator keeps the initial state");
}
