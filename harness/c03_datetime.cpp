//@ prop C03
//@ src dal/time/datetime.cpp dal/time/datetimeutils.cpp dal/time/date.cpp dal/time/dateutils.cpp dal/string/strings.cpp dal/string/stringutils.cpp
//@ bounds every hour/minute/second of a day on any date; every millisecond of days 0, 1, 20000 and 65000 after the first date; ordering, difference and addition over real-valued day fractions (sums below 100 days); text forms with 2-digit fields
//@ stubs doubles are reals except that rounding of the operations leading to each integer conversion is bounded and accounted for
//@ run h_hms budget=100 ta=8000 tb=4000
//@ run h_text budget=100
//@ run h_msec budget=100 ta=8000 tb=4000
//@ run h_order budget=60
//@ run h_add budget=100
//@ run h_reject budget=60
//@ run h_parse budget=100
#include <dal/platform/platform.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/string/strings.hpp>
#include "sym.h"
using namespace Dal;
static Date_ anyDate(const char* n) { return Date::FromExcel((int)sym_i64(n, 25569, 25568 + 65535)); }
HARNESS(h_hms) {
    Date_ d = anyDate("date"); int h = (int)sym_i64("h", 0, 23), m = (int)sym_i64("m", 0, 59), s = (int)sym_i64("s", 0, 59);
    DateTime_ t(d, h, m, s);
    ASSERT(t.Date() == d && t.IsValid(), "the date part is kept");
    ASSERT(t.Frac() >= 0.0 && t.Frac() < 1.0, "the day fraction lies in [0, 1)");
    ASSERT(DateTime::Hour(t) == h, "hour reads back");
    ASSERT(DateTime::Minute(t) == m, "minute reads back");
}
HARNESS(h_text) {
    Date_ d = Date::FromExcel(45292); int h = (int)sym_i64("h", 0, 23), m = (int)sym_i64("m", 0, 59), s = (int)sym_i64("s", 0, 59);
    String_ t = DateTime::TimeString(DateTime_(d, h, m, s));
    ASSERT(t.size() == 8 && t[2] == ':' && t[5] == ':', "time text is hh:mm:ss");
    ASSERT((t[0] - '0') * 10 + t[1] - '0' == h && (t[3] - '0') * 10 + t[4] - '0' == m && (t[6] - '0') * 10 + t[7] - '0' == s, "time text shows hour, minute and second");
}
HARNESS(h_msec) {
    static const long K[4] = {0, 1, 20000, 65000}; long k = K[sym_choice("days", 4)], ms = sym_i64("msec", 0, 86399999), n = k * 86400000L + ms; DateTime_ t((long long)n);
    ASSERT(t.Frac() >= 0.0 && t.Frac() < 1.0, "the day fraction lies in [0, 1)");
    ASSERT(t.Date() - Date::Minimum() == k, "whole days of a millisecond count");
    ASSERT(DateTime::MSec(t) == n, "millisecond count reads back");
}
HARNESS(h_order) {
    double f = sym_f64("f"), g = sym_f64("g"); ASSUME(f >= 0 && f < 1 && g >= 0 && g < 1); Date_ a = anyDate("a"), b = anyDate("b"); DateTime_ x(a, f), y(b, g);
    bool lt = a < b || (a == b && f < g), eq = a == b && f == g;
    ASSERT((x < y) == lt && (x > y) == (!lt && !eq) && (x == y) == eq && (x != y) == !eq && (x <= y) == (lt || eq) && (x >= y) == !lt, "date-times compare by date, then fraction");
    ASSERT((x - y < 0) == lt, "difference is negative exactly when earlier");
    CLOSE(x - y, (a - b) + f - g, "difference in days");
    ASSERT((NumericValueOf(x) < NumericValueOf(y)) == lt, "numeric value is monotone");
}
HARNESS(h_add) {
    double f = sym_f64("f"), k = sym_f64("k"); ASSUME(f >= 0 && f < 1 && k > 0 && k < 100); Date_ a = Date::FromExcel((int)sym_i64("a", 25569, 25568 + 65000)); DateTime_ x(a, f);
    DateTime_ y = x + k;
    ASSERT(y.Frac() >= 0 && y.Frac() < 1, "sum keeps its fraction in [0, 1)");
    CLOSE(y - x, k, "adding k days moves by k days");
    ASSERT(y > x, "adding a positive amount moves later");
    DateTime_ z = x; z += k; ASSERT(z == y, "in-place addition agrees");
}
HARNESS(h_reject) {
    Date_ d = Date::FromExcel(45292); int h = (int)sym_i64("h", -5, 40), m = (int)sym_i64("m", -100, 100), s = (int)sym_i64("s", -100, 100); long secs = 3600L * h + 60 * m + s;
    bool thrown = throws_([&] { DateTime_ t(d, h, m, s); });
    ASSERT(thrown == (secs < 0 || secs >= 86400), "times outside the day are rejected");
    double f = sym_f64("f"); ASSUME(f > -10 && f < 10);
    ASSERT(throws_([&] { DateTime_ t(d, f); }) == (f >= 1), "fractions of one or more are rejected");
}
static void put(String_& s, long v, int n) { long p = 1; for (int i = 1; i < n; ++i) p *= 10; for (int i = 0; i < n; ++i, p /= 10) s.push_back((char)('0' + v / p % 10)); }
HARNESS(h_parse) {
    int h = (int)sym_i64("h", 0, 99), m = (int)sym_i64("m", 0, 99), s = (int)sym_i64("s", 0, 99); bool secs = sym_choice("secs", 2) == 1; String_ t("2024-01-01 "); put(t, h, 2); t.push_back(':'); put(t, m, 2); if (secs) { t.push_back(':'); put(t, s, 2); } else s = 0;
    ASSERT(DateTime::IsDateTimeString(t), "a date-time text is recognised");
    DateTime_ r; bool thrown = throws_([&] { r = DateTime::FromString(t); }); bool ok = h < 24 && m < 60 && s < 60;
    ASSERT(thrown == !ok, "hours, minutes and seconds out of bounds are rejected");
    if (ok) ASSERT(r == DateTime_(Date_(2024, 1, 1), h, m, s), "reading a date-time text gives that instant");
}
