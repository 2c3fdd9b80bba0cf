//@ prop C01
//@ src dal/time/date.cpp dal/time/dateutils.cpp dal/string/strings.cpp dal/string/stringutils.cpp
//@ bounds every serial date of the 16-bit range (1970-01-02 .. 2149-06-05) for year/month/day round trip, succession, weekday and text; every valid (year, month, day) triple with year 1970..2149 for construction and ordering; out-of-range years 1901..1969 and 2150..2300
//@ run h_roundtrip split=4 budget=250 ta=120000
//@ run h_next budget=250 ta=120000
//@ run h_civil budget=250 ta=120000
//@ run h_order budget=120
//@ run h_weekday budget=60
//@ run h_range budget=60
//@ run h_text split=4 budget=250 ta=120000
//@ run h_parse split=3 budget=120
//@ run h_excel budget=60
#include <dal/platform/platform.hpp>
#include <dal/time/date.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/string/strings.hpp>
#include "sym.h"
#include "cal.h"
using namespace Dal;
#ifndef BLK
#define BLK 1461
#endif
static Date_ anyDate(int block) { // blocks of four years keep each query small
    int b = sym_choice("block", (65535 + block - 1) / block); long hi = (long)b * block + block; if (hi > 65535) hi = 65535;
    return Date::FromExcel(25568 + (int)sym_i64("serial", (long)b * block + 1, hi));
}
HARNESS(h_roundtrip) {
    Date_ d = anyDate(BLK);
    int y = Date::Year(d), m = Date::Month(d), dd = Date::Day(d);
    ASSERT((m >= 1) & (m <= 12) & (dd >= 1) & (dd <= ref::dim2(y, m)), "year, month and day name an existing civil day");
    ASSERT(ref::excel2(y, m, dd) == Date::ToExcel(d), "year, month and day are those of the civil calendar");
    ASSERT(Date_(y, m, dd) == d, "date rebuilt from its year, month and day is the same date");
}
HARNESS(h_next) {
    Date_ d = Date::FromExcel((int)sym_i64("serial", 25569, 25568 + 65535)); int k = (int)sym_i64("k", -65534, 65534); int x = Date::ToExcel(d);
    ASSUME(x + k > 25568 && x + k < 25568 + 65536);
    Date_ n = d.AddDays(k), i = d, j = d; 
    ASSERT(Date::ToExcel(n) == x + k && n - d == k && d - n == -k && n.IsValid(), "adding days moves by that many days");
    ASSERT(n.AddDays(-k) == d, "adding then removing days is the identity");
    if (x < 25568 + 65535) ASSERT(++i == d.AddDays(1), "increment is one day");
    if (x > 25569) ASSERT(--j == d.AddDays(-1), "decrement is one day");
}
HARNESS(h_order) {
    int x = (int)sym_i64("x", 25569, 25568 + 65535), y = (int)sym_i64("y", 25569, 25568 + 65535);
    Date_ a = Date::FromExcel(x), b = Date::FromExcel(y);
    ASSERT((a < b) == (x < y), "less"); ASSERT((a > b) == (x > y), "greater"); ASSERT((a == b) == (x == y), "equal");
    ASSERT((a <= b) == (x <= y), "less or equal"); ASSERT((a >= b) == (x >= y), "greater or equal"); ASSERT((a != b) == (x != y), "different");
    ASSERT(a - b == x - y, "difference is the number of days");
}
HARNESS(h_civil) { // Date_(y,m,d) is the civil date y-m-d for every existing day
    int m = sym_choice("m", 12) + 1; long y = sym_i64("y", 1970, 2149), d = sym_i64("d", 1, 31);
    ASSUME(d <= ref::dim((int)y, m)); long x = ref::excel(y, m, (int)d); ASSUME(x > 25568 && x < 25568 + 65536);
    Date_ r((int)y, m, (int)d);
    ASSERT(r.IsValid(), "an existing day in range is a valid date");
    ASSERT(Date::ToExcel(r) == x, "serial number equals the civil day count");
}
HARNESS(h_weekday) {
    long s = sym_i64("serial", 25569, 25568 + 65535); Date_ d = Date::FromExcel((int)s);
    int w = Date::DayOfWeek(d);
    ASSERT(w >= 0 && w <= 6, "weekday in 0..6");
    ASSERT(w == (s - 1) % 7, "weekday is the civil weekday (0 = Sunday)"); // Excel serial 1 (after 1900-03-01) convention: serial % 7 == 1 is a Sunday
    ASSERT(Date::IsWeekEnd(d) == (w == 0 || w == 6), "weekend is Saturday or Sunday");
}
HARNESS(h_range) { // out-of-range days give the invalid date rather than a wrong one
    int m = sym_choice("m", 12) + 1; int d = (int)sym_i64("d", 1, 28); long y = sym_i64("y", 1901, 2148);
    ASSUME(y < 1970 || y > 2149);
    ASSERT(!Date_((int)y, m, d).IsValid(), "a day outside the representable range is invalid, never another day");
    long y3 = sym_i64("y3", 2150, 2300);
    ASSERT(!Date_((int)y3, m, d).IsValid(), "a day after the representable range is invalid, never another day");
}
HARNESS(h_excel) {
    long s = sym_i64("serial", -200000, 200000); Date_ d = Date::FromExcel((int)s);
    bool in = s > 25568 && s < 25568 + 65536;
    ASSERT(d.IsValid() == in, "serials outside the range give an invalid date");
    if (in) ASSERT(Date::ToExcel(d) == s, "serial round trip");
    ASSERT(Date::Minimum().IsValid() && Date::Maximum().IsValid() && Date::Minimum() < Date::Maximum() && (!in || d >= Date::Minimum()), "minimum and maximum bracket the range");
    ASSERT(!Date_().IsValid(), "default date is invalid");
}
HARNESS(h_text) {
    Date_ d = anyDate(BLK); String_ t = Date::ToString(d);
    ASSERT(t.size() == 10 && t[4] == '-' && t[7] == '-', "text is YYYY-MM-DD");
    int y = (t[0] - '0') * 1000 + (t[1] - '0') * 100 + (t[2] - '0') * 10 + (t[3] - '0'), m = (t[5] - '0') * 10 + (t[6] - '0'), dd = (t[8] - '0') * 10 + (t[9] - '0');
    ASSERT(y == Date::Year(d) && m == Date::Month(d) && dd == Date::Day(d), "text shows the date's year, month and day");
}
static void put(String_& s, long v, int n) { long p = 1; for (int i = 1; i < n; ++i) p *= 10; for (int i = 0; i < n; ++i, p /= 10) s.push_back((char)('0' + v / p % 10)); }
HARNESS(h_parse) {
    int f = sym_choice("format", 3); long m = sym_choice("m", 14), y = sym_i64("y", 1971, 2148), d = sym_i64("d", 0, 33);
    String_ t;
    if (f == 0) { put(t, y, 4); t.push_back('-'); put(t, m, 2); t.push_back('-'); put(t, d, 2); }
    else if (f == 1) { put(t, m, 2); t.push_back('/'); put(t, d, 2); t.push_back('/'); put(t, y, 4); }
    else { ASSUME(y >= 2000 && y <= 2099); put(t, m, 2); t.push_back('/'); put(t, d, 2); t.push_back('/'); put(t, y - 2000, 2); }
    ASSERT(Date::IsDateString(t), "a formatted date is recognised");
    bool ex = (m >= 1) & (m <= 12) & (d >= 1) & (d <= ref::dim2((int)y, (int)m)); Date_ r; bool th = throws_([&] { r = Date::FromString(t); });
    if (!ex) ASSERT(th, "text naming no existing day is refused"); else ASSERT(!th && r == Date_((int)y, (int)m, (int)d), "reading a formatted date gives that date");
}
