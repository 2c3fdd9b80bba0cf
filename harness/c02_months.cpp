//@ prop C02
//@ src dal/time/date.cpp
//@ bounds starting dates: every day of 2023, February 1996 and February 2100 (quick) or of all years 1971..2148 (thorough), month shifts -1811..1811 whose result stays in range, both end-of-month conventions; every month of 1970..2148 for month lengths
//@ run h_add split=7 budget=200 ta=60000
//@ run h_addall split=8 tbudget=2500 ta=60000 tier=thorough
//@ run h_dim budget=60
//@ run h_eom split=4 budget=200 ta=60000
#include <dal/platform/platform.hpp>
#include <dal/time/date.hpp>
#include "sym.h"
#include "cal.h"
using namespace Dal;
#ifndef BLK
#define BLK 1461
#endif
static Date_ anyDate(int block) {
    int b = sym_choice("block", (65535 + block - 1) / block); long hi = (long)b * block + block; if (hi > 65535) hi = 65535;
    return Date::FromExcel(25568 + (int)sym_i64("serial", (long)b * block + 1, hi));
}
// oracle: civil month arithmetic on top of the (separately decided) constructor and month lengths
static void addFrom(int y, int mm) {
    int r = sym_choice("rem", 24), sg = r < 12 ? 1 : -1; r %= 12; bool eom = sym_choice("eom", 2) == 1;
    int dd = (int)sym_i64("day", 1, ref::dim(y, mm)), q = (int)sym_i64("years", 0, 178), n = sg * (12 * q + r);
    Date_ d = Date::FromExcel((int)ref::excel(y, mm, 1) + dd - 1);
    int t = mm - 1 + sg * r, ey = y + sg * q + (t < 0 ? -1 : t > 11 ? 1 : 0), em = (t + 12) % 12 + 1;
    ASSUME(ey >= 1971 && ey <= 2148);
    Date_ res = Date::AddMonths(d, n, eom);
    int dm = ref::dim2(ey, em); bool toEnd = (dd > dm) | (eom & (dd == ref::dim(y, mm))); int ed = toEnd ? dm : dd;
    ASSERT(res == Date_(ey, em, ed), "adding months keeps the day of month, capped at the month's length, and honours end-of-month");
}
HARNESS(h_add) { int k = sym_choice("ym", 14); addFrom(k == 12 ? 1996 : k == 13 ? 2100 : 2023, k > 11 ? 2 : k + 1); }
HARNESS(h_addall) { int k = sym_choice("ym", 12 * 178); addFrom(1971 + k / 12, k % 12 + 1); }
HARNESS(h_dim) {
    int m = sym_choice("m", 12) + 1; int y = (int)sym_i64("y", 1970, 2148); ASSUME(!(y == 1970 && m == 1));
    ASSERT(Date::DaysInMonth(y, m) == ref::dim2(y, m), "days in month follow the Gregorian calendar");
}
HARNESS(h_eom) {
    Date_ d = anyDate(BLK); ASSUME(Date::ToExcel(d) <= ref::excel2(2148, 12, 31));
    Date_ e = Date::EndOfMonth(d); int y = Date::Year(d), m = Date::Month(d);
    ASSERT(Date::ToExcel(e) == ref::excel2(y, m, ref::dim2(y, m)), "end of month is the last day of the same month");
}
