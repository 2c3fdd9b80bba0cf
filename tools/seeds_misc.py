H='''#include <dal/platform/platform.hpp>
#include <dal/time/date.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/string/strings.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/utilities/dictionary.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/math/aad/blocklist.hpp>
#include <cstdio>
#include <cmath>
using namespace Dal;
#define CK(c) do { if (!(c)) { printf("FAIL %s\\n", #c); return 1; } } while (0)
'''
S("incr-cds-back","C06",[("dal/time/dateincrement.cpp","if (mm % 3 || (forward ? dd >= 20 : dd <= 20)) {","if (mm % 3 || (forward ? dd >= 20 : dd < 20)) {")],
 "stepping back from a CDS day itself","the step back to the previous CDS date does not move when the date is a CDS date",
 H+"int main(){ auto i=Date::ParseIncrement(String_(\"CDS\")); CK(Date_(2024,3,20)-*i==Date_(2023,12,20)); CK(Date_(2024,3,21)-*i==Date_(2024,3,20)); return 0; }")
S("incr-bd-weekend","C06",[("dal/time/dateincrement.cpp","            while (--n_steps >= 0) {","            if (n_steps > 10) {\n                ret_val = ret_val.AddDays(7 * (n_steps / 5) * sign);\n                n_steps %= 5;\n            }\n            while (--n_steps >= 0) {")],
 "a business-day tenor of more than ten days across holidays, or from a weekend","whole weeks are stepped without looking at holidays",
 H+"int main(){ Vector_<Date_> h, w; h.push_back(Date_(2024,1,3)); Holidays::AddCenter(String_(\"QQ\"),h,w); auto i=Date::NBusDays(11,Holidays_(String_(\"QQ\"))); CK(Date_(2024,1,1)+*i==Date_(2024,1,17)); return 0; }")
S("str-split-tail","C07",[("dal/string/strings.cpp","            if (ret_val.back().empty() && !keep_empties)","            if (ret_val.back().empty() && !(keep_empties && ret_val.size() > 1))")],
 "splitting text that begins with a separator while keeping empties","a leading empty piece is dropped although empties were asked for",
 H+"int main(){ auto v=String::Split(String_(\",a\"),',',true); CK(v.size()==2 && v[0].empty()); auto u=String::Split(String_(\"a,,b\"),',',true); CK(u.size()==3); return 0; }")
S("str-nextname","C07",[("dal/string/strings.cpp","            ret_val.pop_back();\n            return String_(NextName(ret_val) + '0');","            ret_val.pop_back();\n            if (!ret_val.empty() && ret_val.back() == '9' && ret_val.size() > 2)\n                return String_(NextName(ret_val.substr(0, ret_val.size() - 1)) + '0');\n            return String_(NextName(ret_val) + '0');")],
 "a name ending in two nines after at least one other character","carrying over two nines drops a digit, so A99's successor equals A9's",
 H+"int main(){ CK(String::NextName(String_(\"AB99\"))==String_(\"AB100\")); CK(String::NextName(String_(\"AB9\"))==String_(\"AB10\")); CK(String::NextName(String_(\"X199\"))==String_(\"X200\")); return 0; }")
S("dict-case","C08",[("dal/utilities/dictionary.cpp","bool Dictionary_::Has(const String_& key) const { return val_.count(String::Condensed(key)) > 0; }","bool Dictionary_::Has(const String_& key) const { return val_.count(key) > 0; }")],
 "asking for a key spelled with blanks or underscores","a stored key is reported missing",
 H+"int main(){ Dictionary_ d; d.Insert(String_(\"NUM_PATHS\"),Cell_(2.0)); CK(d.Has(String_(\"num paths\"))); CK(d.Has(String_(\"NUM_PATHS\"))); CK(d.Has(String_(\"numpaths\"))); return 0; }")
S("aad-divd","C09",[("dal/math/aad/expr.hpp","        FORCE_INLINE static double Derivative(double r, double v, double d) { return -d / r / r; }","        FORCE_INLINE static double Derivative(double r, double v, double d) { return -v / (r > 0.0 ? r : -r); }")],
 "a constant divided by a negative active number","the derivative of d/x has the wrong sign for x<0",
 H+"using namespace Dal::AAD; int main(){ Tape_ t; Number_::SetTape(t); t.Clear(); Number_ x(-2.0); x.PutOnTape(); Number_ y = 3.0/x; y.PropagateToStart(); CK(std::fabs(x.Adjoint()+0.75)<1e-12); return 0; }")
S("block-rewind-last","C10",[("dal/math/aad/blocklist.hpp","        void RewindToMark() {\n            currBlock_ = markedBlock_;","        void RewindToMark() {\n            if (currBlock_ != markedBlock_)\n                lastBlock_ = std::next(markedBlock_);\n            currBlock_ = markedBlock_;")],
 "appending over two block boundaries after a mark, rewinding and appending again","blocks beyond the first after the mark are abandoned mid-list, later appends land out of order",
 H+"using namespace Dal::AAD; int main(){ BlockList_<int,2> b; b.SetMark(); for(int i=0;i<9;++i)*b.EmplaceBack()=i; b.RewindToMark(); for(int i=0;i<9;++i)*b.EmplaceBack()=100+i; int k=0; for(auto it=b.Begin(); it!=b.End(); ++it){ CK(k<9); CK(*it==100+k); ++k;} CK(k==9); return 0; }")
