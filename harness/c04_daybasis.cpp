//@ prop C04
//@ src dal/time/daybasis.cpp dal/time/date.cpp dal/string/strings.cpp dal/string/stringutils.cpp
//@ bounds ACT/360, ACT/365F: every pair of dates; ACT/ACT: periods of up to three calendar years starting on any day of 2019, 2020, 2023, 2099, 2100; ACT/365L: accrual dates anywhere within eight years of the nominal end, end on any day of 2019..2021, 2024, 2100, 2101; 30/360: every pair of days of 2019..2021 and 2096/2100 (month pairs case by case)
//@ run h_act budget=60
//@ run h_actact split=5 budget=120 ta=30000
//@ run h_365l split=6 budget=120 ta=30000
//@ run h_bond split=8 budget=150 ta=30000
//@ run h_names budget=60
#include <dal/platform/platform.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/string/strings.hpp>
#include "sym.h"
#include "cal.h"
using namespace Dal;
static double yf(const char* b, const Date_& f, const Date_& t, const DayBasis::Context_* c = nullptr) { return DayBasis_(String_(b))(f, t, c); }
static int diy(int y) { return ref::leap(y) ? 366 : 365; }
HARNESS(h_act) {
    int a = (int)sym_i64("from", 25569, 25568 + 65535), b = (int)sym_i64("to", 25569, 25568 + 65535); Date_ f = Date::FromExcel(a), t = Date::FromExcel(b);
    CLOSE(360 * yf("ACT/360", f, t), b - a, "ACT/360 is actual days over 360");
    CLOSE(365 * yf("ACT/365F", f, t), b - a, "ACT/365F is actual days over 365");
}
HARNESS(h_actact) {
    static const int Y[5] = {2019, 2020, 2023, 2099, 2100}; int y = Y[sym_choice("year", 5)], k = sym_choice("years", 4);
    int a = (int)sym_i64("fromDay", 0, diy(y) - 1), b = (int)sym_i64("toDay", 0, diy(y + k) - 1); ASSUME(k > 0 || b >= a);
    Date_ f = Date_(y, 1, 1).AddDays(a), t = Date_(y + k, 1, 1).AddDays(b);
    double e = k == 0 ? (t - f) / (double)diy(y) : (Date_(y + 1, 1, 1) - f) / (double)diy(y) + (k - 1) + (t - Date_(y + k, 1, 1)) / (double)diy(y + k);
    CLOSE(yf("ACT/ACT", f, t), e, "ACT/ACT counts each calendar year's days over that year's length");
}
HARNESS(h_365l) {
    static const int Y[6] = {2019, 2020, 2021, 2024, 2100, 2101}; int y = Y[sym_choice("endYear", 6)]; bool annual = sym_choice("annual", 2) == 1;
    Date_ end = Date_(y, 1, 1).AddDays((int)sym_i64("endDay", 0, diy(y) - 1));
    int back = annual ? sym_choice("yearsBack", 3) : 0; Date_ from = Date_(y - back, 1, 1).AddDays((int)sym_i64("fromDay", 0, diy(y - back) - 1)); ASSUME(from <= end);
    int n = (int)sym_i64("days", 0, 1500); Date_ to = from.AddDays(n);
    DayBasis::Context_ c(false, from, end, annual ? 12 : 6);
    bool hit = false; for (int i = y - back; i <= y; ++i) if (ref::leap(i)) hit = hit | ((from < Date_(i, 2, 29)) & (Date_(i, 2, 29) <= end));
    int den = annual ? (hit ? 366 : 365) : diy(y);
    CLOSE(den * yf("ACT/365L", from, to, &c), n, "ACT/365L divides by 366 exactly when its reference period calls for it, else 365");
}
HARNESS(h_bond) {
    static const int YM[8][2] = {{2019, 1}, {2019, 2}, {2020, 2}, {2019, 4}, {2019, 12}, {2100, 2}, {2020, 1}, {2096, 2}};
    int i = sym_choice("from", 8), j = sym_choice("to", 8), y1 = YM[i][0], m1 = YM[i][1], y2 = YM[j][0], m2 = YM[j][1];
    int d1 = (int)sym_i64("d1", 1, ref::dim(y1, m1)), d2 = (int)sym_i64("d2", 1, ref::dim(y2, m2));
    Date_ f = Date_(y1, m1, 1).AddDays(d1 - 1), t = Date_(y2, m2, 1).AddDays(d2 - 1);
    bool f1 = m1 == 2 && d1 == ref::dim(y1, m1), f2 = m2 == 2 && d2 == ref::dim(y2, m2);
    int e1 = f1 || d1 > 30 ? 30 : d1, e2 = (f1 && f2) || (d2 == 31 && e1 == 30) ? 30 : d2;
    CLOSE(360 * yf("BOND", f, t), 360 * (y2 - y1) + 30 * (m2 - m1) + e2 - e1, "30/360 counts months as 30 days with the US end-of-month rules");
}
HARNESS(h_names) {
    static const char* N[] = {"ACT/365F", "act_365f", "ACT_365FIXED", "ACT/365FIXED", "ACT_360", "ACT/360", "money", "ACTUAL/360", "ACT_ACT", "ACT/ACT", "Actual/Actual", "BOND", "30_360", "30/360", "30_360_US", "ACT/365L", "ACT_365L", "ISMA_Year"};
    static const char* C[] = {"ACT_365F", "ACT_365F", "ACT_365F", "ACT_365F", "ACT_360", "ACT_360", "ACT_360", "ACT_360", "ACT_ACT", "ACT_ACT", "ACT_ACT", "BOND", "BOND", "BOND", "BOND", "ACT_365L", "ACT_365L", "ACT_365L"};
    int i = sym_choice("name", 18); DayBasis_ b((String_(N[i])));
    ASSERT(String_(b.String()) == String_(C[i]) && b == DayBasis_(String_(C[i])), "every documented name gives its day count");
    ASSERT(throws_([&] { yf("ACT/365L", Date_(2020, 1, 1), Date_(2021, 1, 1)); }), "ACT/365L without a context is rejected");
    ASSERT(throws_([&] { DayBasis_ x(String_("ACT/361")); }), "unknown names are rejected");
}
