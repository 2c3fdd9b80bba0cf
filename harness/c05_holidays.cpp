//@ prop C05
//@ src dal/time/holidays.cpp dal/time/holidaydata.cpp dal/time/date.cpp dal/string/strings.cpp dal/string/stringutils.cpp dal/utilities/environment.cpp dal/math/vectors.cpp dal/utilities/algorithms.cpp
//@ bounds two holiday centres over a 28-day window starting on a Monday: two holidays and one working weekend day in the first, one holiday in the second, each anywhere in the window (for counting on combined calendars one holiday is fixed); calendars "", "AA", "BB", "AA BB" and repeats; every query date of the window; periods of -1 to 17 days starting on each weekday (3, 6, 7, 9, 13, 14, 16 days on combined calendars)
//@ run h_membership split=5 budget=100
//@ run h_next split=5 budget=100
//@ run h_count split=5 budget=200
//@ run h_add budget=60
#include <dal/platform/platform.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/string/strings.hpp>
#include "sym.h"
using namespace Dal;
static int h1, h2, h3, ww; static const char* CAL[5] = {"", "AA", "BB", "AA BB", "BB AA BB"}; static bool a_, b_;
static Date_ base() { return Date_(2024, 1, 1); }
static Date_ at(int off) { return base().AddDays(off); }
static Holidays_ setup(bool few = false) {
    int c = sym_choice("calendar", 5); a_ = c == 1 || c > 2; b_ = c > 1;
    h1 = few && c > 2 ? 8 : (int)sym_i64("h1", 0, 27); h2 = (int)sym_i64("h2", 0, 27); h3 = (int)sym_i64("h3", 0, 27); ww = (int)sym_i64("ww", 0, 27);
    ASSUME((h1 % 7 < 5) & (h2 % 7 < 5) & (h3 % 7 < 5) & (ww % 7 > 4) & (h1 < h2));
    Vector_<Date_> ha, hb, w; ha.push_back(at(h1)); ha.push_back(at(h2)); hb.push_back(at(h3)); w.push_back(at(ww));
    Holidays::AddCenter(String_("AA"), ha, w); Holidays::AddCenter(String_("BB"), hb);
    return Holidays_(String_(CAL[c]));
}
static bool hol(int d) { return (a_ & ((d == h1) | (d == h2))) | (b_ & (d == h3)); }
static bool bus(int d) { return (a_ & (d == ww)) | ((d % 7 < 5) & !hol(d)); }
HARNESS(h_membership) {
    Holidays_ H = setup(); int d = (int)sym_i64("d", 0, 27);
    ASSERT(H.IsHoliday(at(d)) == hol(d), "a date is a holiday exactly when one of the centres lists it");
    ASSERT(H.IsWorkWeekends(at(d)) == (a_ & (d == ww)), "working weekends are those a centre lists");
}
HARNESS(h_next) {
    Holidays_ H = setup(); int d = (int)sym_i64("d", 8, 20);
    int n = Holidays::NextBus(H, at(d)) - base(), p = Holidays::PrevBus(H, at(d)) - base();
    ASSERT((n >= d) & (p <= d), "next business day is not earlier, previous not later");
    ASSERT(bus(n) && bus(p), "next and previous business days are business days");
    int k = (int)sym_i64("k", 0, 27); ASSERT(!((k >= d) & (k < n) & bus(k)), "no business day is skipped going forward"); ASSERT(!((k <= d) & (k > p) & bus(k)), "no business day is skipped going back");
}
HARNESS(h_count) {
    Holidays_ H = setup(true); int b = sym_choice("begin", 7), l = a_ && b_ ? sym_choice("length7", 7) : sym_choice("length", 19); static const int L[7] = {3, 6, 7, 9, 13, 14, 16}; int e = a_ && b_ ? b + L[l] : b + l - 1; int r = 0;
    for (int k = 0; k < 28; ++k) r += (int)((k >= b) & (k < e) & bus(k));
    CountBusDays_ C(H); Date_ end = at(e);
    ASSERT(C(at(b), end) == r, "business-day count equals the number of business days from begin up to, not including, end");
}
HARNESS(h_add) {
    Vector_<Date_> none, l; int x = (int)sym_i64("x", 0, 27), y = (int)sym_i64("y", 0, 27); l.push_back(at(x)); l.push_back(at(y)); bool asw = sym_choice("weekends", 2) == 1;
    bool thrown = throws_([&] { asw ? Holidays::AddCenter(String_("ZZ"), none, l) : Holidays::AddCenter(String_("ZZ"), l, none); });
    bool ok = asw ? (x % 7 > 4) & (y % 7 > 4) & (x <= y) : (x % 7 < 5) & (y % 7 < 5) & (x <= y);
    if (!ok) ASSERT(thrown, "holiday lists with weekends, working-weekend lists with weekdays and unsorted lists are rejected");
    if (ok && x < y) ASSERT(!thrown, "a sorted list is accepted");
    if (!thrown) { ASSERT(throws_([&] { Holidays::AddCenter(String_("zz"), none); }), "a centre cannot be registered twice"); ASSERT(Holidays::OfCenter(String_("ZZ"))->center_ == String_("ZZ"), "a registered centre is found"); }
    else ASSERT(throws_([&] { Holidays_ h(String_("ZZ")); }), "a rejected or unknown centre is not available");
}
