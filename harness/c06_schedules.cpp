//@ prop C06
//@ src dal/time/dateincrement.cpp dal/time/schedules.cpp dal/time/periodlength.cpp dal/time/holidays.cpp dal/time/holidaydata.cpp dal/time/date.cpp dal/string/strings.cpp dal/string/stringutils.cpp dal/math/cell.cpp dal/math/cellutils.cpp dal/time/datetime.cpp dal/utilities/environment.cpp
//@ bounds special days (IMM, monthly IMM, CDS, month end) from every day of 2023, 2024, 2099 and 2100, both directions; steps of 0..13 units of each size from every day of 2024; business-day steps of 0..6 from any day of three weeks with one symbolic holiday; schedules of up to 5 periods of 1M, 3M or 1W with symbolic length from four month-end anchor days, both generation directions, unadjusted and following
//@ run h_special split=8 budget=150 ta=30000
//@ run h_step split=4 budget=100 ta=30000
//@ run h_bdfar split=3 budget=60
//@ run h_bd split=7 budget=100
//@ run h_schedule split=8 budget=150 ta=30000
//@ run h_make split=4 budget=150 ta=30000
//@ run h_nominal split=4 budget=60 ta=30000
#include <dal/platform/platform.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/schedules.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/math/cell.hpp>
#include <dal/currency/currency.hpp>
#include <dal/string/strings.hpp>
#include "sym.h"
#include "cal.h"
using namespace Dal;
static int diy(int y) { return ref::leap(y) ? 366 : 365; }
static Date_ ymd(int y, int m, int d) { return Date::FromExcel((int)ref::excel(y, m, d)); }
HARNESS(h_special) {
    int k = sym_choice("kind", 8); static const char* N[4] = {"IMM", "IMM1", "CDS", "EOM"}; bool fwd = k < 4; k %= 4; static const int Y[4] = {2023, 2024, 2099, 2100}; int y = Y[sym_choice("year", 4)];
    int o = (int)sym_i64("day", 0, diy(y) - 1), x = (int)ref::excel(y, 1, 1) + o; Date_ d = Date::FromExcel(x);
    auto inc = Date::ParseIncrement(String_(N[k])); Date_ r = fwd ? d + *inc : d - *inc;
    int e = fwd ? 1000000 : 0;
    for (int i = -4; i < 17; ++i) { int yy = y + (i < 0 ? -1 : i > 11 ? 1 : 0), m = (i + 12) % 12 + 1; if ((k == 0 || k == 2) && m % 3) continue; int first = (int)ref::excel(yy, m, 1), w = (first - 1) % 7; int c = k == 3 ? first + ref::dim(yy, m) - 1 : k == 2 ? first + 19 : first + (3 - w + 7) % 7 + 14; if (fwd) e = ((c > x) & (c < e)) ? c : e; else e = ((c < x) & (c > e)) ? c : e; }
    ASSERT(Date::ToExcel(r) == e, "stepping to a special day gives the first such day strictly after (or the last strictly before) the date");
}
HARNESS(h_step) {
    int k = sym_choice("unit", 4), n = sym_choice("n", 14); bool fwd = sym_choice("fwd", 2) == 1; static const char* U[4] = {"Y", "M", "WEEKS", "CD"};
    Date_ d = Date::FromExcel((int)ref::excel(2024, 1, 1) + (int)sym_i64("day", 0, 365)); String_ t; if (n > 9) t.push_back('1'); t.push_back((char)('0' + n % 10)); t += U[k];
    auto inc = Date::ParseIncrement(t); Date_ r = fwd ? d + *inc : d - *inc; int s = fwd ? n : -n;
    ASSERT(r == (k == 0 ? Date::AddMonths(d, 12 * s) : k == 1 ? Date::AddMonths(d, s) : d.AddDays((k == 2 ? 7 : 1) * s)), "a step of n units moves by n units");
}
HARNESS(h_bdfar) {
    static const int N[3] = {11, 12, 16}; int n = N[sym_choice("n", 3)]; bool fwd = sym_choice("fwd", 2) == 1; int o = 28 + (int)sym_i64("day", 0, 6), h = (int)sym_i64("holiday", 2, 60); ASSUME(h % 7 < 5);
    Date_ b(2024, 1, 1); Vector_<Date_> hs; hs.push_back(b.AddDays(h)); Holidays::AddCenter(String_("AA"), hs);
    String_ t("1"); t.push_back((char)('0' + n % 10)); t += "BD;AA"; auto inc = Date::ParseIncrement(t); Date_ d = b.AddDays(o); int r = (fwd ? d + *inc : d - *inc) - b;
    int cnt = 0; for (int i = 0; i < 70; ++i) cnt += (int)((fwd ? (i > o) & (i <= r) : (i < o) & (i >= r)) & (i % 7 < 5) & (i != h));
    ASSERT((r % 7 < 5) & (r != h) & (cnt == n), "a long business-day step passes exactly n business days and ends on one");
}
HARNESS(h_bd) {
    int n = sym_choice("n", 7); bool fwd = sym_choice("fwd", 2) == 1, cal = sym_choice("calendar", 2) == 1; int o = (int)sym_i64("day", 10, 17), h = (int)sym_i64("holiday", 0, 27); ASSUME(h % 7 < 5);
    Date_ b(2024, 1, 1); Vector_<Date_> hs; hs.push_back(b.AddDays(h)); Holidays::AddCenter(String_("AA"), hs);
    String_ t; t.push_back((char)('0' + n)); t += cal ? "BD;AA" : "BD"; auto inc = Date::ParseIncrement(t); Date_ d = b.AddDays(o); int r = (fwd ? d + *inc : d - *inc) - b;
    int cnt = 0; for (int i = 0; i < 35; ++i) cnt += (int)((fwd ? (i > o) & (i <= r) : (i < o) & (i >= r)) & (i % 7 < 5) & !(cal & (i == h)));
    if (n == 0 && !cal) ASSERT(r == o, "zero business days without a calendar is the date itself"); else { ASSERT((r % 7 < 5) & !(cal & (r == h)), "a business-day step ends on a business day");
        bool sb = (o % 7 < 5) & !(cal & (o == h)); ASSERT(n == 0 ? (sb ? r == o : cnt == 1) : cnt == n, "a business-day step passes exactly n business days"); }
    if (n > 0) ASSERT((fwd ? d + *Date::NBusDays(n, Holidays_(String_(cal ? "AA" : ""))) : d - *Date::NBusDays(n, Holidays_(String_(cal ? "AA" : "")))) == b.AddDays(r), "the programmatic form agrees with the text form");
}
HARNESS(h_schedule) {
    int k = sym_choice("case", 8); bool fwd = k < 4; k %= 4; static const char* T[4] = {"1M", "3M", "1W", "IMM"}; static const int SPAN[4] = {130, 380, 30, 380};
    int a = (int)sym_i64("anchor", 27, 30), n0 = (int)sym_i64("days", 0, SPAN[k]); Date_ anchor = ymd(fwd ? 2023 : 2024, fwd ? 11 : 5, 1).AddDays(a), s = fwd ? anchor : anchor.AddDays(-n0), m = fwd ? anchor.AddDays(n0) : anchor; auto inc = Date::ParseIncrement(String_(T[k]));
    Schedule_ r = DateGenerate(s, m, inc, DateGeneration_(String_(fwd ? "Forward" : "Backward"))); int n = (int)r.size();
    ASSERT(n >= 1 && r[0] == s && r[n - 1] == m, "a schedule starts at the start and ends at the maturity");
    for (int i = 1; i < n; ++i) ASSERT(r[i - 1] < r[i], "schedule dates strictly increase");
    for (int i = 1; i + 1 < n; ++i) ASSERT(r[fwd ? i : n - 1 - i] == (fwd ? r[i - 1] + *inc : r[n - i] - *inc), "interior dates are one tenor apart, stub at the far end");
    if (n > 1) ASSERT(fwd ? r[n - 2] + *inc >= m : r[1] - *inc <= s, "no period is longer than the tenor");
}
HARNESS(h_make) {
    int k = sym_choice("case", 4); bool fwd = k < 2, adj = k % 2 == 1; Date_ b(2024, 1, 1); int h = (int)sym_i64("holiday", 0, 27); ASSUME(h % 7 < 5); Vector_<Date_> hs; hs.push_back(b.AddDays(h)); Holidays::AddCenter(String_("AA"), hs); Holidays_ H(String_("AA"));
    Date_ s = b.AddDays((int)sym_i64("start", 0, 6)), m = s.AddDays((int)sym_i64("days", 1, 15)); auto inc = Date::ParseIncrement(String_("1W")); DateGeneration_ g(String_(fwd ? "Forward" : "Backward"));
    Schedule_ raw = DateGenerate(s, m, inc, g), r = MakeSchedule(s, Cell_(m), H, inc, g, BizDayConvention_(String_(adj ? "Following" : "Unadjusted")));
    for (int i = 1; i < (int)r.size(); ++i) ASSERT(r[i - 1] < r[i], "schedule dates strictly increase after adjustment");
    for (int i = 0; i < (int)raw.size(); ++i) { Date_ e = adj ? Holidays::NextBus(H, raw[i]) : raw[i]; bool in = false; for (int j = 0; j < (int)r.size(); ++j) in = in | (r[j] == e); ASSERT(in, "every generated date appears, rolled to the following business day"); }
    for (int j = 0; j < (int)r.size(); ++j) { bool in = false; for (int i = 0; i < (int)raw.size(); ++i) in = in | (r[j] == (adj ? Holidays::NextBus(H, raw[i]) : raw[i])); ASSERT(in, "every schedule date comes from a generated date"); }
}
HARNESS(h_nominal) {
    static const char* N[4] = {"ANNUAL", "SEMIANNUAL", "QUARTERLY", "MONTHLY"}; static const int M[4] = {12, 6, 3, 1}; int k = sym_choice("period", 4); PeriodLength_ p((String_(N[k])));
    ASSERT(p.Months() == M[k], "period length in months"); Date_ d = ymd(2023, 6, 1).AddDays((int)sym_i64("day", 0, 500));
    ASSERT(Date::NominalMaturity(d, p, Ccy_(String_("USD"))) == Date::AddMonths(d, M[k]), "nominal maturity is that many months later");
}
