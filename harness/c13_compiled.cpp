//@ prop C13
//@ src dal/script/parser.cpp dal/script/event.cpp dal/script/event/schedule.cpp dal/storage/globals.cpp dal/string/strings.cpp dal/time/daybasis.cpp dal/time/dateutils.cpp dal/time/date.cpp dal/math/cell.cpp dal/math/cellutils.cpp dal/math/aad/expr.cpp dal/math/aad/tape.cpp dal/math/aad/aad.cpp dal/math/specialfunctions.cpp
//@ bounds expressions of two nested operations (12 kinds each) over spot, numbers, macro constants and variables; generated programs of up to four statements with if/else nested two deep and constant or non-constant conditions; two or three events; spots any reals in [0.5, 2] or [-2, 2], numeraires in [1, 2]
//@ run h_expr split=12 budget=100
//@ run h_cond split=6 budget=90
//@ run h_prog split=8 budget=90
//@ run h_constcond split=6 budget=40
//@ run h_events split=2 budget=60
//@ run h_aad split=12 budget=100
//@ run h_aadprog split=6 budget=60
#include "script.h"
static Ex leaf(int k, double spot, double y) { Ex r; static const char* T[5] = {"spot()", "0.75", "y", "K1", "c"}; r.t << T[k]; r.v = k == 0 ? spot : k == 1 ? 0.75 : k == 2 ? y : k == 3 ? 1.25 : 0.9; return r; }
static void both(const ScriptProduct_& p, int n, const double* S, const double* N, const Vector_<double>*& a, const Vector_<double>*& b) {
    AAD::Scenario_<double> s(n); for (int i = 0; i < n; ++i) { s[i].spot_ = S[i]; s[i].numeraire_ = N[i]; }
    Evaluator_<double>* E = new Evaluator_<double>(p.BuildEvaluator<double>()); EvalState_<double>* C = new EvalState_<double>(p.BuildEvalState<double>()); p.Evaluate(s, *E); p.EvaluateCompiled(s, *C); p.EvaluateCompiled(s, *C); a = &E->VarVals(); b = &C->VarVals();
}
static void same(const ScriptProduct_& p, int n, const double* S, const double* N) { const Vector_<double>*a, *b; both(p, n, S, N, a, b); ASSERT(a->size() == b->size(), "the same variables"); for (int i = 0; i < (int)a->size(); ++i) CLOSE((*b)[i], (*a)[i], "a compiled script gives every variable the value the interpreter gives it"); }
HARNESS(h_expr) {
    int o1 = sym_choice("op1", OPS), o2 = sym_choice("op2", OPS), a = sym_choice("a", 5), b = sym_choice("b", 5), c = o1 < 7 ? (a + 2 * b + o2) % 5 : 0, side = o1 < 7 ? sym_choice("side", 2) : 0;
    if (o2 >= 7 && b > 0) return;
    double S = sym_range("spot", 0.5, 2), N = sym_range("num", 1, 2);
    Ex l = leaf(a, S, S + 1), r = leaf(b, S, S + 1), q = leaf(c, S, S + 1); ASSUME(domok(o2, l.v, r.v)); Ex in = opx(o2, l, r); const Ex& A = side ? q : in; const Ex& B = side ? in : q;
    ASSUME(domok(o1, A.v, B.v)); Ex e = opx(o1, A, B); Txt t; t << "c = 0.9 y = spot() + 1 x = " << e.t << " z pays " << e.t; const char* ev[1] = {t.b};
    ScriptProduct_ p = product(ev, 1); p.PreProcess(false, true); p.Compile(); same(p, 1, &S, &N);
}
static const char* C[6] = {" = ", " != ", " < ", " > ", " <= ", " >= "};
HARNESS(h_cond) {
    int c1 = sym_choice("c1", 6), c2 = sym_choice("c2", 6), j = sym_choice("join", 4), lf = sym_choice("operand", 3); double S = sym_range("spot", -2, 2), N = sym_range("num", 1, 2);
    static const char* L[3] = {"spot()", "K1", "y"}; Txt t; t << "y = 1.25 if ";
    t << L[lf] << C[c1] << "K1"; if (j == 1) t << " and 2 * spot()" << C[c2] << "spot() + K2"; else if (j == 2) t << " or 2 * y" << C[c2] << "spot() + K2 and spot() > -1"; else if (j == 3) t << " and (y" << C[c2] << "1.25 or spot() > -1)";
    t << " then x = 3 y = y + 1 else x = 4 x pays spot() end x = x + y"; const char* ev[1] = {t.b}; ScriptProduct_ p = product(ev, 1); p.PreProcess(false, true); p.Compile(); same(p, 1, &S, &N);
}
// generated programs: a block of statements, conditionals nested
static const char* ST[6] = {"x = x + 1", "y = x * 2 + spot()", "x = 3", "z pays y + 1", "y = 1.5", "y = +x"};
static const char* CO[6] = {"spot() > 0", "x = 3", "y >= 1", "K1 > 2 and spot() > 1", "spot() < -1 or y = 0", "x != 0"};
static void block(Txt& t, int shape, int c1, int c2, int s1, int s2) {
    switch (shape) {
    case 0: t << ST[s1] << " if " << CO[c1] << " then " << ST[s2] << " end"; break;
    case 1: t << ST[s1] << " if " << CO[c1] << " then " << ST[s2] << " else " << ST[s1] << " end"; break;
    case 2: t << "if " << CO[c1] << " then if " << CO[c2] << " then " << ST[s1] << " else " << ST[s2] << " end end"; break;
    case 3: t << "if " << CO[c1] << " then " << ST[s1] << " if " << CO[c2] << " then " << ST[s2] << " else x = 2 end y = y + 1 else if " << CO[c2] << " then " << ST[s2] << " end x = x + 5 end"; break;
    case 4: t << "if " << CO[c1] << " then " << ST[s1] << " else " << ST[s2] << " end if " << CO[c2] << " then " << ST[s2] << " else " << ST[s1] << " end"; break;
    case 5: t << "if " << CO[c1] << " then if " << CO[c2] << " then " << ST[s1] << " else " << ST[s2] << " end else if " << CO[c2] << " then " << ST[s2] << " else " << ST[s1] << " end end"; break;
    case 6: t << ST[s1] << " if " << CO[c1] << " then if " << CO[c2] << " then " << ST[s2] << " end end x = x + y"; break;
    default: t << "if " << CO[c1] << " then " << ST[s1] << " " << ST[s2] << " else if " << CO[c2] << " then " << ST[s2] << " else x = 1 end if " << CO[c1] << " then x = 8 end end"; break;
    }
}
HARNESS(h_prog) {
    int sh = sym_choice("shape", 8), c1 = sym_choice("c1", 6), c2 = sym_choice("c2", 6), s1 = sym_choice("s1", 6), s2 = (s1 + 1 + c1) % 6; double S = sym_range("spot", -2, 2), N = sym_range("num", 1, 2);
    Txt t; block(t, sh, c1, c2, s1, s2); t << " w = w + x + 2 * y"; const char* ev[1] = {t.b}; ScriptProduct_ p = product(ev, 1); p.PreProcess(false, true); p.Compile(); same(p, 1, &S, &N);
}
HARNESS(h_constcond) {
    int c = sym_choice("c", 6), v = sym_choice("v", 6), h = sym_choice("how", 3); double S = sym_range("spot", -2, 2), N = 1; static const char* V[6] = {"0", "1", "-1", "0.00000000000000000001", "-0.00000000000000000001", "-0.000000001"}; 
    Txt t; t << "y = " << V[v] << " if "; if (h == 0) t << "y" << C[c] << "0"; else if (h == 1) t << V[v] << C[c] << "0"; else t << "0" << C[c] << "y"; t << " then x = 1 else x = 2 end x = x + spot()"; const char* ev[1] = {t.b}; ScriptProduct_ p = product(ev, 1); p.PreProcess(false, true); p.Compile(); same(p, 1, &S, &N);
}
HARNESS(h_events) {
    int k = sym_choice("k", 2), c = sym_choice("c", 6); double S[3], N[3]; static const char* SN[3] = {"s0", "s1", "s2"}; static const char* NN[3] = {"n0", "n1", "n2"}; for (int i = 0; i < 3; ++i) { S[i] = sym_range(SN[i], -2, 2); N[i] = sym_range(NN[i], 1, 2); }
    Txt t; t << "if " << CO[c] << " then x = 0 y = K2 else y = 3 z pays x end"; const char* ev[3] = {"x = 1 y = spot()", t.b, k ? "x pays spot() * K2 if y = 3 then x = x + 1 end" : "z pays x * y"};
    ScriptProduct_ p = product(ev, 3); p.PreProcess(false, true); p.Compile(); same(p, 3, S, N);
}
// derivatives: the compiled and the interpreted evaluation record the same function of spot, numeraire and the macro constants
static void adj(const ScriptProduct_& p, int n, const double* S, const double* N) {
    double r[2][8]; int m = 2 * n, nc = p.ConstVarNames().size();
    for (int w = 0; w < 2; ++w) {
        Tape_* t = new Tape_(); Number_::SetTape(*t); AAD::Scenario_<Number_>* s = new AAD::Scenario_<Number_>(n); for (int i = 0; i < n; ++i) { (*s)[i].spot_ = S[i]; (*s)[i].numeraire_ = N[i]; (*s)[i].spot_.PutOnTape(); (*s)[i].numeraire_.PutOnTape(); }
        auto* E = new Evaluator_<Number_>(p.BuildEvaluator<Number_>()); auto* C = new EvalState_<Number_>(p.BuildEvalState<Number_>()); Vector_<Number_>& K = w ? C->ConstVarVals() : E->ConstVarVals(); for (auto& k : K) k.PutOnTape();
        if (w) p.EvaluateCompiled(*s, *C); else p.Evaluate(*s, *E); Number_ res = (w ? C->VarVals() : E->VarVals())[p.PayOffIdx()]; r[w][7] = res.value(); res.PropagateToStart(); for (int i = 0; i < n; ++i) { r[w][2 * i] = (*s)[i].spot_.Adjoint(); r[w][2 * i + 1] = (*s)[i].numeraire_.Adjoint(); } for (int i = 0; i < nc; ++i) r[w][m + i] = K[i].Adjoint();
    }
    CLOSE(r[1][7], r[0][7], "compiled and interpreted values agree"); for (int i = 0; i < m; ++i) CLOSE(r[1][i], r[0][i], "compiled derivatives to the market equal the interpreted ones"); for (int i = m; i < m + nc; ++i) CLOSE(r[1][i], r[0][i], "compiled derivatives to the constants equal the interpreted ones");
}
HARNESS(h_aad) {
    int o1 = sym_choice("op1", OPS), o2 = sym_choice("op2", 7), a = sym_choice("a", 3), b = sym_choice("b", 3), c = (a + 2 * b + o2) % 3, side = o1 < 7 ? sym_choice("side", 2) : 0; static const int LF[3] = {0, 3, 1};
    double S = sym_range("spot", 0.5, 2), N = sym_range("num", 1, 2);
    Ex l = leaf(LF[a], S, 0), r = leaf(LF[b], S, 0), q = leaf(LF[c], S, 0); ASSUME(domok(o2, l.v, r.v)); Ex in = opx(o2, l, r); const Ex& A = side ? q : in; const Ex& B = side ? in : q;
    ASSUME(domok(o1, A.v, B.v)); Ex e = opx(o1, A, B); ASSUME(e.v < 1e3 && e.v > -1e3); Txt t; t << "x pays " << e.t; const char* ev[1] = {t.b}; ScriptProduct_ p = product(ev, 1); p.PreProcess(false, true); p.Compile(); adj(p, 1, &S, &N);
}
HARNESS(h_aadprog) {
    int k = sym_choice("prog", 6); double S[2], N[2]; S[0] = sym_range("s0", 0.5, 2); S[1] = sym_range("s1", 0.5, 2); N[0] = sym_range("n0", 1, 2); N[1] = sym_range("n1", 1, 2); static const char* P[6][2] = {
        {"m = spot()", "x pays MAX(spot() - K1, 0)"}, {"m = spot() * K2", "if spot() > K1 then x pays m else x pays m * m end"}, {"x = K1", "x pays x * spot()"}, {"y = K1 if spot() > K1 then y = spot() end", "x pays y * K2"}, {"y = K2", "x = y + MIN(spot(), K1) * 2"}, {"y = 2 * K1 z = y - K2", "if z > spot() and z > 0 then x pays z - spot() end"}};
    ScriptProduct_ p = product(P[k], 2); p.PreProcess(false, true); p.Compile(); adj(p, 2, S, N);
}
