//@ prop C17
//@ src dal/script/parser.cpp dal/script/event.cpp dal/script/event/schedule.cpp dal/storage/globals.cpp dal/string/strings.cpp dal/time/daybasis.cpp dal/time/dateutils.cpp dal/time/date.cpp dal/time/schedules.cpp dal/time/dateincrement.cpp dal/time/holidays.cpp dal/time/holidaydata.cpp dal/time/periodlength.cpp dal/math/cell.cpp dal/math/cellutils.cpp dal/protocol/optiontype.cpp
//@ bounds schedules over 12 start dates, 5 tenors, 1 to 4 periods and every order of five parameters; schedule token lists cut at every length or with one token replaced by any of 12; products of up to four events, the evaluation date before, on, between or after them, events given in any order and sharing dates; 140 past payments; spots any reals in [0.5, 2], numeraires in [1, 2]
//@ run h_schedule split=12 budget=90
//@ run h_order split=24 budget=90
//@ run h_cut split=4 budget=90
//@ run h_past split=5 budget=90
//@ run h_pastmany budget=60
//@ run h_macro split=4 budget=60
#include "script.h"
#include <dal/script/event/schedule.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/time/dateincrement.hpp>
static Txt iso(const Date_& d) { Txt t; int y = Date::Year(d), m = Date::Month(d), k = Date::Day(d); t << (char)('0' + y / 1000) << (char)('0' + y / 100 % 10) << (char)('0' + y / 10 % 10) << (char)('0' + y % 10) << "-" << (char)('0' + m / 10) << (char)('0' + m % 10) << "-" << (char)('0' + k / 10) << (char)('0' + k % 10); return t; }
static Date_ step(const Date_& d, int tn, int k) { return tn == 0 ? Date::AddMonths(d, k) : tn == 1 ? Date::AddMonths(d, 3 * k) : tn == 2 ? Date::AddMonths(d, 12 * k) : tn == 3 ? d.AddDays(7 * k) : d.AddDays(10 * k); }
static const char* TN[5] = {"1m", "3m", "1y", "1w", "10CD"};
static ScriptProduct_ prod1(const char* key, const char* ev, const char* key2 = nullptr, const char* ev2 = nullptr) {
    Global::Dates_::SetEvaluationDate(Date_(2020, 1, 1)); Vector_<Cell_> d; Vector_<String_> e; if (key2) { d.push_back(Cell_(String_(key2))); e.push_back(String_(ev2)); } d.push_back(Cell_(String_(key))); e.push_back(String_(ev)); return ScriptProduct_(d, e, String_("x")); }
HARNESS(h_schedule) {
    int s = sym_choice("start", 12), tn = sym_choice("tenor", 5), n = 1 + sym_choice("periods", 4), fx = sym_choice("fix", 3), stub = sym_choice("stub", 2); static const int SD[12][3] = {{2024, 1, 31}, {2024, 1, 15}, {2023, 2, 28}, {2024, 2, 29}, {2021, 12, 31}, {2022, 5, 7}, {2023, 8, 30}, {2024, 3, 1}, {2025, 11, 30}, {2022, 6, 4}, {2028, 2, 1}, {2023, 10, 31}};
    Date_ st(SD[s][0], SD[s][1], SD[s][2]), en = st, ds[8]; ds[0] = st; for (int i = 1; i <= n + 1; ++i) ds[i] = step(ds[i - 1], tn, 1); en = ds[n]; if (stub) en = en.AddDays(3); Txt k; k << "START: " << iso(st) << " END: " << iso(en) << " FREQ: " << TN[tn]; if (fx) k << " FIXING: " << (fx == 1 ? "BEGIN" : "END");
    double S = sym_range("spot", 0.5, 2); ScriptProduct_ p = prod1(k.b, "x pays spot() * DCF(ACT365F, PeriodBegin, PeriodEnd) y = DCF(ACT360, PeriodBegin, PeriodEnd)"); int m = stub ? n + 1 : n;
    ASSERT((int)p.EventDates().size() == m && p.PastEventDates().size() == 0, "one event per period"); double e = 0, y = 0; for (int i = 0; i < m; ++i) { Date_ a = ds[i], b = i == m - 1 ? en : ds[i + 1]; ASSERT(p.EventDates()[i] == (fx == 1 ? a : b), "events fall on period ends, or starts when fixed at the beginning"); e += S * (b - a) / 365.0; y = (b - a) / 360.0; }
    p.PreProcess(false, true); Evaluator_<double> E = p.BuildEvaluator<double>(); AAD::Scenario_<double> sc(m); for (int i = 0; i < m; ++i) { sc[i].spot_ = S; sc[i].numeraire_ = 1; } p.Evaluate(sc, E); CLOSE(E.VarVals()[varIdx(p, "x")], e, "each period's event sees its own period dates"); CLOSE(E.VarVals()[varIdx(p, "y")], y, "the last period is evaluated last");
}
static const char* PT[5] = {"START: 2024-01-15", "END: 2024-04-15", "FREQ: 1m", "FIXING: BEGIN", "BizRule: Unadjusted"};
HARNESS(h_order) {
    int o = sym_choice("order", 24), at = sym_choice("biz", 5); int a[4] = {0, 1, 2, 3}; { int q = o; for (int i = 0; i < 3; ++i) { int f = i == 0 ? 6 : i == 1 ? 2 : 1; int j = i + q / f; q %= f; int t = a[j]; for (int k = j; k > i; --k) a[k] = a[k - 1]; a[i] = t; } }
    Txt k; for (int i = 0; i < 5; ++i) { if (i == at) k << PT[4] << " "; if (i < 4) k << PT[a[i]] << " "; } ScriptProduct_ p = prod1(k.b, "x = 1"); ASSERT(p.EventDates().size() == 3, "the parameters of a schedule may come in any order"); for (int i = 0; i < 3; ++i) ASSERT(p.EventDates()[i] == Date_(2024, 1 + i, 15), "and mean the same");
}
HARNESS(h_cut) {
    int how = sym_choice("how", 4); static const char* F[26] = {"START", ":", "2024", "-", "01", "-", "15", "END", ":", "2024", "-", "03", "-", "15", "FREQ", ":", "1M", "FIXING", ":", "BEGIN", "BIZRULE", ":", "UNADJUSTED", "", "", ""}; static const char* V[12] = {"START", "END", "FREQ", ":", "-", "1M", "FIXING", "BIZRULE", "CALENDAR", "2024", "XX", "BEGIN"};
    Vector_<String_> t; int n = 23, rep = -1, v = 0, rm = -1; if (how == 0) n = sym_choice("n", 24); else if (how == 1) { rep = sym_choice("at", 23); v = sym_choice("v", 12); } else if (how == 2) rm = sym_choice("rm", 23); else { n = sym_choice("n", 24); rep = sym_choice("at", 23); v = 3; if (rep >= n) return; }
    bool whole = true; for (int i = 0; i < n; ++i) { if (i == rm) { whole = false; continue; } const char* w = i == rep ? V[v] : F[i]; t.push_back(String_(w)); if (!(String_(w) == F[i])) whole = false; }
    Vector_<std::tuple<Date_, Date_, Date_>> r; bool th = throws_([&] { r = ParseSchedule(t); }); bool pre = whole && (n == 17 || n == 20 || n == 23);
    if (pre) ASSERT(!th && r.size() == 2, "a complete schedule is accepted"); if (whole && !pre) ASSERT(th, "an incomplete schedule is rejected"); sym_reach("h_cut");
}
// past events: assignments carry over, payments do not
HARNESS(h_past) {
    int e = sym_choice("eval", 5), perm = sym_choice("perm", 3); double S = sym_range("spot", 0.5, 2), N = sym_range("num", 1, 2); static const int M[5] = {1, 2, 3, 4, 5}; static const char* ev[4] = {"a = 2 x pays 1", "a = a + 1 x pays a", "a = a * 3 y = a", "x pays a z = a + y"}; static const int P[3][4] = {{0, 1, 2, 3}, {3, 1, 0, 2}, {2, 3, 1, 0}};
    Global::Dates_::SetEvaluationDate(Date_(2024, M[e], 15)); Vector_<Cell_> d; Vector_<String_> s; for (int i = 0; i < 4; ++i) { int j = P[perm][i]; d.push_back(Cell_(Date_(2024, 1 + j, 15))); s.push_back(String_(ev[j])); } if (perm == 2) { d.push_back(Cell_(Date_(2024, 4, 15))); s.push_back(String_("z = z + 1")); }
    ScriptProduct_ p(d, s, String_("x")); int np = e; ASSERT((int)p.PastEventDates().size() == np && (int)p.EventDates().size() == 4 - np, "events strictly before the evaluation date are past"); for (int i = 0; i < 4; ++i) ASSERT((i < np ? p.PastEventDates()[i] : p.EventDates()[i - np]) == Date_(2024, 1 + i, 15), "events are in date order");
    p.PreProcess(false, true); ASSERT((int)p.TimeLine().size() == 4 - np, "one time per future event"); for (int i = np; i < 4; ++i) CLOSE(p.TimeLine()[i - np], (Date_(2024, 1 + i, 15) - Date_(2024, M[e], 15)) / 365.0, "event times count from the evaluation date");
    Evaluator_<double> E = p.BuildEvaluator<double>(); AAD::Scenario_<double> sc(4 - np); for (int i = 0; i < 4 - np; ++i) { sc[i].spot_ = S; sc[i].numeraire_ = N; } p.Evaluate(sc, E); double x = 0; static const double pay[4] = {1, 3, 0, 9}; for (int i = np; i < 4; ++i) x += pay[i] / N;
    CLOSE(E.VarVals()[varIdx(p, "x")], x, "payments of past events do not count"); ASSERT(E.VarVals()[varIdx(p, "a")] == 9, "assignments of past events carry over"); ASSERT(E.VarVals()[varIdx(p, "z")] == (perm == 2 ? 19 : 18), "statements for the same date accumulate in order");
    Evaluator_<double> G = p.BuildEvaluator<double>(); p.Evaluate(sc, G); p.Evaluate(sc, G); CLOSE(G.VarVals()[varIdx(p, "x")], x, "evaluation restarts from the state after the past events");
}
HARNESS(h_pastmany) {
    double S = sym_range("spot", 0.5, 2); Global::Dates_::SetEvaluationDate(Date_(2024, 6, 1)); Vector_<Cell_> d; Vector_<String_> s; char b[2400]; int n = 0; for (int i = 0; i < 140; ++i) { const char* q = "x pays 2 + a "; while (*q) b[n++] = *q++; } const char* q = "a = a + 5"; while (*q) b[n++] = *q++; b[n] = 0; d.push_back(Cell_(Date_(2024, 5, 1))); s.push_back(String_(b)); d.push_back(Cell_(Date_(2024, 7, 1))); s.push_back(String_("x pays a * spot()"));
    ScriptProduct_ p(d, s, String_("x")); p.PreProcess(false, true); Evaluator_<double> E = p.BuildEvaluator<double>(); AAD::Scenario_<double> sc(1); sc[0].spot_ = S; sc[0].numeraire_ = 1; p.Evaluate(sc, E); CLOSE(E.VarVals()[varIdx(p, "x")], 5 * S, "any number of past payments leaves the evaluation sound");
}
HARNESS(h_macro) {
    int k = sym_choice("k", 4); double S = sym_range("spot", 0.5, 2); ScriptProduct_ p = k == 0 ? prod1("START: 2024-01-15 END: 2024-03-15 FREQ: 1m", "x pays LEG", "LEG", "2 * spot()") : k == 1 ? prod1("START: 2024-01-15 END: 2024-03-15 FREQ: 1m", "x pays leg", "LEG", "2 * spot()") : k == 2 ? prod1("START: 2024-01-15 END: 2024-03-15 FREQ: 1m", "x pays Q * spot()", "Q", "2.0") : prod1("START: 2024-01-15 END: 2024-03-15 FREQ: 1m", "if spot() > Q then x pays 2 * spot() else x pays spot() + spot() end", "Q", "1.5");
    p.PreProcess(false, true); Evaluator_<double> E = p.BuildEvaluator<double>(); AAD::Scenario_<double> sc(2); for (int i = 0; i < 2; ++i) { sc[i].spot_ = S; sc[i].numeraire_ = 1; } p.Evaluate(sc, E); CLOSE(E.VarVals()[varIdx(p, "x")], 4 * S, "macros are replaced wherever they appear, in any case"); ASSERT(throws_([] { prod1("Q", "1", "Q", "2"); }), "a macro cannot be defined twice");
}
