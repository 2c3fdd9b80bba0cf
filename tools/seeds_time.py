H='''#include <dal/platform/platform.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <cstdio>
using namespace Dal;
#define CK(c) do { if (!(c)) { printf("FAIL %s\\n", #c); return 1; } } while (0)
'''
S("date-leap2100","C01",[("dal/time/date.cpp","const auto A = serial + 1 + alpha - (alpha / 4);","const auto A = serial + 1 + std::min(alpha, 16) - (alpha / 4);")],
 "reading the year/month/day of a date from 2100-03-01 on","year/month/day of every date after February 2100 are those of the following day (the missing leap day is put back)",
 H+"int main(){ Date_ d(2100,3,1); CK(Date::Day(d)==1 && Date::Month(d)==3); Date_ e(2140,12,31); CK(Date::Year(e)==2140 && Date::Day(e)==31); Date_ f(1999,12,31); CK(Date::Year(f)==1999&&Date::Day(f)==31); return 0; }")
S("date-addmonths-leap","C02",[("dal/time/date.cpp","        const auto d_max = DaysInMonth(yy, mm);","        const auto d_max = DaysInMonth(mm == 2 && n_months < 0 ? Year(dt) : yy, mm);")],
 "moving back across a year boundary to a February whose leap status differs from the starting year's","the day is capped with the starting year's February, so the result is a wrong day or 1 March",
 H+"int main(){ CK(Date::AddMonths(Date_(2020,3,31),-13)==Date_(2019,2,28)); CK(Date::AddMonths(Date_(2021,3,31),-13)==Date_(2020,2,29)); return 0; }")
S("datetime-carry","C03",[("dal/time/datetime.cpp","        if (dt > 0) {\n            date_ = date_.AddDays(dt);\n            frac_ -= dt;","        if (dt > 0) {\n            date_ = date_.AddDays(dt);\n            frac_ -= std::min(dt, 31);")],
 "adding 32 or more days at once to a date-time","the fraction leaves [0,1) so the sum is days too late and comparisons are wrong",
 H+"int main(){ DateTime_ t(Date_(2020,1,1),0.5); DateTime_ u=t+40.75; CK(u.Frac()<1.0); CK(u.Date()-t.Date()==41); return 0; }")
H2=H+'''#include <dal/time/daybasis.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/schedules.hpp>
#include <dal/string/strings.hpp>
#include <cmath>
'''
S("daybasis-actact-eoy","C04",[("dal/time/daybasis.cpp","            if (to <= nextYear)\n                return (to - from) / denom;","            if (to <= nextYear.AddDays(31))\n                return (to - from) / denom;")],
 "an ACT/ACT period ending in January of the next year where exactly one of the two years is a leap year","January days are divided by the previous year's length",
 H2+"int main(){ DayBasis_ b(String_(\"ACT/ACT\")); double r=b(Date_(2019,12,1),Date_(2020,1,31),nullptr); CK(std::fabs(r-(31/365.0+30/366.0))<1e-12); return 0; }")
S("hols-weekend-work","C05",[("dal/time/holidays.cpp","            if (p2Stop != hols_.parts_[0]->workWeekends_.end() && *p2Stop == d) {","            if (Date::IsWeekEnd(d) && weeks == 0 && p2Stop != hols_.parts_[0]->workWeekends_.end() && *p2Stop == d) {")],
 "a period longer than a week whose remaining days contain a working weekend day","the working weekend day in the last partial week is not counted",
 H2+"int main(){ Vector_<Date_> h, w; w.push_back(Date_(2024,1,13)); Holidays::AddCenter(String_(\"QQ\"),h,w); CountBusDays_ c(Holidays_(String_(\"QQ\"))); CK(c(Date_(2024,1,1),Date_(2024,1,14))==11); CK(c(Date_(2024,1,8),Date_(2024,1,14))==6); return 0; }")
S("sched-backward-stub","C06",[("dal/time/schedules.cpp","                if (pin_date < start)\n                    break;","                if (pin_date <= start)\n                    break;"),("dal/time/schedules.cpp","            if (start != ret_val.back())\n                ret_val.push_back(start);","            if (ret_val.size() > 1 && ret_val.back() - start < 4)\n                ret_val.back() = start;\n            else if (start != ret_val.back())\n                ret_val.push_back(start);")],
 "a backward schedule whose front stub is shorter than four days","the short front stub is merged into the following period, so one period is longer than the tenor",
 H2+"int main(){ auto t=Date::ParseIncrement(String_(\"1M\")); auto r=DateGenerate(Date_(2024,1,13),Date_(2024,4,15),t,DateGeneration_(String_(\"Backward\"))); CK(r.size()==5 && r[1]==Date_(2024,1,15)); return 0; }")
