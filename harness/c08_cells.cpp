//@ prop C08
//@ src dal/math/cell.cpp dal/math/cellutils.cpp dal/string/strings.cpp dal/string/stringutils.cpp dal/utilities/dictionary.cpp dal/utilities/numerics.cpp dal/protocol/optiontype.cpp dal/protocol/couponrate.cpp dal/protocol/clearer.cpp dal/protocol/collateraltype.cpp dal/time/periodlength.cpp dal/time/schedules.cpp
//@ bounds numbers: every real in +-4e9 and every integer in +-32768 plus the 32-bit edges; booleans texts of 1, 4 and 5 arbitrary ASCII characters and lists of up to 4 flags; dictionaries of 2 keys of 1-3 symbolic characters; every alternative of each enumeration
//@ run h_num budget=60
//@ run h_int budget=60
//@ run h_types budget=60
//@ run h_bool split=3 budget=60
//@ run h_boolvec budget=60
//@ run h_dict split=9 budget=90
//@ run h_dicttext budget=60
//@ run h_enum budget=60
#include <dal/platform/platform.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/string/stringutils.hpp>
#include <dal/utilities/dictionary.hpp>
#include <dal/protocol/optiontype.hpp>
#include <dal/protocol/collateraltype.hpp>
#include <dal/protocol/clearer.hpp>
#include <dal/protocol/couponrate.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/time/schedules.hpp>
#include <dal/time/dateutils.hpp>
#include "sym.h"
using namespace Dal;
HARNESS(h_num) {
    double d = sym_range("d", -4e9, 4e9); Cell_ c(d);
    ASSERT(Cell::IsDouble(c) && Cell::ToDouble(c) == d && Cell::ToDouble(c, 7.0) == d, "a number cell gives back its number");
    bool i = Cell::IsInt(c); int v = 0; bool t = throws_([&] { v = Cell::ToInt(c); });
    ASSERT(t == !i, "a cell converts to an integer exactly when it says it is one");
    if (!t) ASSERT((double)v == d, "integer conversion never changes the value");
    if (d > 2.2e9) ASSERT(!i, "numbers beyond 32 bits are not integers");
}
HARNESS(h_int) {
    int k = sym_choice("range", 3); int n = (int)(k == 0 ? sym_i64("n", -32768, 32767) : k == 1 ? sym_i64("n", 2147483000L, 2147483646L) : sym_i64("n", -2147483646L, -2147483000L));
    Cell_ c = Cell::FromInt(n); ASSERT(Cell::IsInt(c) && Cell::ToInt(c) == n, "integers survive in cells");
    if (k == 0) { int m = (int)sym_concrete(n / 4096); (void)m; }
}
HARNESS(h_types) {
    int k = sym_choice("type", 7); Date_ dt = Date::FromExcel((int)sym_i64("serial", 40000, 40400)); DateTime_ tm(dt, 0.5); bool b = sym_choice("b", 2) == 1; String_ s(k == 4 ? "xyz" : "");
    Cell_ c = k == 0 ? Cell_(b) : k == 1 ? Cell_(1.5) : k == 2 ? Cell_(dt) : k == 3 ? Cell_(tm) : k == 4 || k == 5 ? Cell_(s) : Cell_();
    ASSERT(Cell::IsBool(c) == (k == 0) && Cell::IsDouble(c) == (k == 1) && Cell::IsDate(c) == (k == 2) && Cell::IsDateTime(c) == (k == 3) && Cell::IsString(c) == (k == 4 || k == 5) && Cell::IsEmpty(c) == (k >= 5), "a cell knows its type");
    ASSERT(!Cell::IsInt(c), "only whole numbers are integers");
    ASSERT(throws_([&] { Cell::ToBool(c); }) == (k != 0) && throws_([&] { Cell::ToDate(c); }) == (k != 2) && throws_([&] { Cell::ToDateTime(c); }) == (k != 3) && throws_([&] { Cell::ToDouble(c); }) == (k > 1) && throws_([&] { Cell::ToInt(c); }) == (k != 0), "conversion to the wrong type is rejected");
    ASSERT(k != 0 || (Cell::ToBool(c) == b && Cell::ToDouble(c) == (b ? 1.0 : 0.0) && Cell::ToInt(c) == (b ? 1 : 0)), "booleans read back, and as 0/1");
    ASSERT(k != 2 || Cell::ToDate(c) == dt, "dates read back"); ASSERT(k != 3 || Cell::ToDateTime(c) == tm, "date-times read back"); ASSERT(k != 4 || Cell::ToString(c) == "xyz", "strings read back");
    ASSERT(k < 5 || (Cell::ToDouble(c, 3.0) == 3.0 && Cell::ToInt(c, 4) == 4 && Cell::ToEnum<OptionType_>(c, OptionType_("PUT")) == OptionType_("PUT")), "empty cells give the stated default");
    Cell_ d(c); ASSERT(d == c, "copies compare equal"); Cell_ o(2.5); ASSERT(!(o == c), "different cells compare different"); o = c; ASSERT(o == c, "assignment copies");
    o.Clear(); ASSERT(Cell::IsEmpty(o), "cleared cells are empty");
    ASSERT((c == String_("XYZ")) == (k == 4), "a cell equals a string only if it holds it");
}
HARNESS(h_bool) {
    int k = sym_choice("len", 3), n = k == 0 ? 1 : k == 1 ? 4 : 5; char t[8]; static const char* N[5] = {"c0", "c1", "c2", "c3", "c4"};
    for (int i = 0; i < n; ++i) t[i] = (char)sym_i64(N[i], 1, 127); t[n] = 0;
    auto u = [&](int i, char a) { return t[i] == a || t[i] == a + 32; };
    bool yes = n == 1 ? u(0, 'T') || u(0, 'Y') || t[0] == '1' : n == 4 ? u(0, 'T') && u(1, 'R') && u(2, 'U') && u(3, 'E') : false;
    bool no = n == 1 ? u(0, 'F') || u(0, 'N') || t[0] == '0' : n == 5 ? u(0, 'F') && u(1, 'A') && u(2, 'L') && u(3, 'S') && u(4, 'E') : false;
    bool v = false; bool th = throws_([&] { v = String::ToBool(String_(t)); });
    ASSERT(th == !(yes || no), "exactly the documented spellings are booleans");
    if (!th) ASSERT(v == yes, "boolean spellings have their meaning");
}
HARNESS(h_boolvec) {
    int n = sym_choice("n", 5); Vector_<bool> v; String_ commas, tail; for (int i = 0; i < n; ++i) { static const char* N[4] = {"b0", "b1", "b2", "b3"}; bool b = sym_choice(N[i], 2) == 1; v.push_back(b); if (i) commas += ','; commas += b ? "true" : "N"; }
    Cell_ c = Cell::FromBoolVector(v); Vector_<bool> w = Cell::ToBoolVector(c);
    ASSERT(w.size() == v.size(), "flag lists keep their length"); for (int i = 0; i < n; ++i) ASSERT(w[i] == v[i], "flag lists survive in a cell");
    if (n > 1) { Vector_<bool> x = String::ToBoolVector(commas); ASSERT(x.size() == v.size(), "comma-separated flags keep their number"); for (int i = 0; i < n; ++i) ASSERT(x[i] == v[i], "comma-separated flags are read in order"); }
    if (n == 1) { Vector_<bool> x = Cell::ToBoolVector(Cell_((bool)v[0])); ASSERT(x.size() == 1 && x[0] == v[0], "a boolean cell is a one-flag list"); ASSERT(throws_([] { Cell::ToBoolVector(Cell_(1.0)); }), "numbers are not flag lists"); }
}
static bool same(const char* a, int n, const char* b, int m) {
    char x[8], y[8]; int p = 0, q = 0; auto f = [](char c) { return c == ' ' || c == '\t' || c == '_'; }; auto u = [](char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; };
    for (int i = 0; i < n; ++i) if (!f(a[i])) x[p++] = u(a[i]); for (int i = 0; i < m; ++i) if (!f(b[i])) y[q++] = u(b[i]);
    if (p != q) return false; for (int i = 0; i < p; ++i) if (x[i] != y[i]) return false; return true;
}
HARNESS(h_dict) {
    int k = sym_choice("lens", 9), n = k / 3 + 1, m = k % 3 + 1; if (n + m == 6) m = 2; char a[8], b[8]; static const char* A[3] = {"a0", "a1", "a2"}; static const char* B[3] = {"b0", "b1", "b2"};
    for (int i = 0; i < n; ++i) a[i] = (char)sym_i64(A[i], 32, 126); a[n] = 0; for (int i = 0; i < m; ++i) b[i] = (char)sym_i64(B[i], 32, 126); b[m] = 0;
    bool e = same(a, n, b, m); Dictionary_ d; d.Insert(String_(a), Cell_(1.0));
    ASSERT(d.Has(String_(a)) && d.Size() == 1 && Cell::ToDouble(d.At(String_(a))) == 1.0, "an inserted key is found");
    ASSERT(d.Has(String_(b)) == e, "keys match up to case, blanks and underscores, and not otherwise");
    ASSERT(throws_([&] { d.At(String_(b)); }) == !e && Cell::IsEmpty(d.At(String_(b), true)) == !e, "missing keys are reported, or blank when optional");
    bool t = throws_([&] { d.Insert(String_(b), Cell_(2.0)); }); ASSERT(t == e, "duplicate keys are rejected");
    ASSERT(Cell::ToDouble(d.At(String_(a))) == 1.0 && d.Size() == (e ? 1 : 2), "a rejected insert changes nothing"); if (!e) ASSERT(Cell::ToDouble(d.At(String_(b))) == 2.0, "each key keeps its own value");
}
HARNESS(h_dicttext) {
    Dictionary_ d; static const char* K[3] = {"k0", "k1", "k2"}; static const char* NM[3] = {"al pha", "Be_ta", "g"}; int n = 1 + sym_choice("n", 3); Cell_ v[3];
    for (int i = 0; i < n; ++i) { int k = sym_choice(K[i], 6); v[i] = k == 0 ? Cell_((double)-17) : k == 1 ? Cell_(Date_(2024, 2, 29)) : k == 2 ? Cell_(DateTime_(Date_(2020, 11, 21), 0.5)) : k == 3 ? Cell_("some words") : k == 4 ? Cell_() : Cell_(3e9); d.Insert(NM[i], v[i]); }
    String_ s = Dictionary::ToString(d); Dictionary_ e; bool t = throws_([&] { e = Dictionary::FromString(s); });
    ASSERT(!t, "the text form of a dictionary can be read"); if (t) return; ASSERT(e.Size() == n, "the text form keeps every entry");
    for (int i = 0; i < n; ++i) { ASSERT(e.Has(NM[i]), "the text form keeps every key"); ASSERT(e.At(NM[i]) == v[i] || (Cell::IsEmpty(v[i]) && Cell::IsEmpty(e.At(NM[i]))), "the text form keeps every value"); }
    ASSERT(throws_([] { Dictionary::FromString("a=1;b"); }) && throws_([] { Dictionary::FromString("=1"); }) && throws_([] { Dictionary::FromString("a=1;A=2"); }) && throws_([] { Dictionary::FromString("a=1=2"); }), "malformed dictionary text is rejected");
}
template <class E> static void roundtrip(const Vector_<E>& all, int n) {
    ASSERT((int)all.size() == n, "an enumeration lists every alternative");
    for (int i = 0; i < n; ++i) { String_ s(all[i].String()); ASSERT(E(s) == all[i], "every alternative reads back from its name"); ASSERT(Cell::ToEnum<E>(Cell::FromEnum(all[i])) == all[i], "every alternative survives in a cell"); for (int j = 0; j < n; ++j) ASSERT((all[i] == all[j]) == (i == j), "alternatives are distinct"); }
    ASSERT(throws_([] { E x(String_("no such name")); }) && throws_([] { E x(String_("")); }), "unknown names are rejected");
}
HARNESS(h_enum) {
    switch (sym_choice("enum", 8)) {
    case 0: roundtrip(OptionTypeListAll(), 3); { static const char* N[] = {"C", "call", "p", "Put", "v", "c + p", "C+P"}; static const char* F[] = {"CALL", "CALL", "PUT", "PUT", "STRADDLE", "STRADDLE", "STRADDLE"}; for (int i = 0; i < 7; ++i) ASSERT(OptionType_(N[i]) == OptionType_(F[i]), "documented synonyms mean their alternative"); } break;
    case 1: roundtrip(CollateralTypeListAll(), 3); break;
    case 2: roundtrip(ClearerListAll(), 2); break;
    case 3: roundtrip(TradedRateListAll(), 5); break;
    case 4: roundtrip(PeriodLengthListAll(), 4); { static const char* N[] = {"12M", "annual", "6m", "semi", "3M", "1M"}; static const int M[] = {12, 12, 6, 6, 3, 1}; for (int i = 0; i < 6; ++i) ASSERT(PeriodLength_(N[i]).Months() == M[i], "period names have their length in months"); } break;
    case 5: roundtrip(DateGenerationListAll(), 2); break;
    case 6: roundtrip(BizDayConventionListAll(), 3); break;
    case 7: { static const char* C[] = {"CME", "LCH"}; static const char* P[] = {"3M", "6M"}; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { TradedRate_ r = FindRate(PeriodLength_(P[j]), Clearer_(C[i])); ASSERT(r.Period() == PeriodLength_(P[j]) && r.Clearer() == Clearer_(C[i]), "the rate found for a period and clearer has them"); } } break;
    }
}
