// shared by the script harnesses: products built from text through the public API, scenarios with symbolic markets
#pragma once
#include <dal/platform/platform.hpp>
#include <dal/script/event.hpp>
#include <dal/script/parser.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/storage/globals.hpp>
#include <dal/math/cell.hpp>
#include "sym.h"
using namespace Dal; using namespace Dal::Script; using Dal::AAD::Number_; using Dal::AAD::Tape_;
struct Txt { char b[512]; int n = 0; Txt& operator<<(const char* s) { while (*s) b[n++] = *s++; b[n] = 0; return *this; } Txt& operator<<(char c) { b[n++] = c; b[n] = 0; return *this; } Txt& operator<<(const Txt& t) { return *this << t.b; } Txt() { b[0] = 0; } };
inline Date_ evDate(int i) { return Date_(2024, 1 + i, 15); }
// macros K1 = 1.25 and K2 = 0.5 are constants of every product
inline ScriptProduct_ product(const char* const* ev, int n, const char* payoff = "x", int past = 0) {
    Global::Dates_::SetEvaluationDate(past ? Date_(2024, past, 20) : Date_(2024, 1, 1));
    Vector_<Cell_> d; Vector_<String_> e; d.push_back(Cell_(String_("K1"))); e.push_back(String_("1.25")); d.push_back(Cell_(String_("K2"))); e.push_back(String_("0.5"));
    for (int i = 0; i < n; ++i) { d.push_back(Cell_(evDate(i))); e.push_back(String_(ev[i])); }
    return ScriptProduct_(d, e, String_(payoff));
}
template <class T> inline AAD::Scenario_<T> scen(int n) { AAD::Scenario_<T> s(n); return s; }
template <class E> inline const Vector_<double>& interp(const ScriptProduct_& p, const AAD::Scenario_<double>& s, E& ev) { p.Evaluate(s, ev); return ev.VarVals(); }
inline int varIdx(const ScriptProduct_& p, const char* n) { for (int i = 0; i < (int)p.VarNames().size(); ++i) if (p.VarNames()[i] == n) return i; return -1; }
// ---- generated expressions
enum { OPS = 12 };   // + - * / ^ max min  and unary - log sqrt exp +
struct Ex { Txt t; double v; };
inline Ex opx(int k, const Ex& a, const Ex& b) {
    Ex r; static const char* I[5] = {" + ", " - ", " * ", " / ", " ^ "};
    if (k < 5) { r.t << "(" << a.t << I[k] << b.t << ")"; r.v = k == 0 ? a.v + b.v : k == 1 ? a.v - b.v : k == 2 ? a.v * b.v : k == 3 ? a.v / b.v : pow(a.v, b.v); }
    else if (k < 7) { r.t << (k == 5 ? "MAX(" : "MIN(") << a.t << ", " << b.t << ")"; r.v = k == 5 ? (a.v > b.v ? a.v : b.v) : (a.v < b.v ? a.v : b.v); }
    else { static const char* F[5] = {"-(", "LOG(", "SQRT(", "EXP(", "+("}; r.t << F[k - 7] << a.t << ")"; r.v = k == 7 ? -a.v : k == 8 ? log(a.v) : k == 9 ? sqrt(a.v) : k == 10 ? exp(a.v) : a.v; }
    return r;
}
inline bool domok(int k, double a, double b) { if (k == 5 || k == 6) return a < b || a > b; if (k == 3) return b >= 0.1 || b <= -0.1; if (k == 4) return a >= 0.1; if (k == 8 || k == 9) return a >= 0.01; return true; }
