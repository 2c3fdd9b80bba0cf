//@ prop C30
//@ src dal/indice/index.cpp dal/indice/indexparse.cpp dal/indice/indexpath.cpp dal/indice/index/equity.cpp dal/indice/index/fx.cpp dal/indice/index/ir.cpp dal/indice/parser/equity.cpp dal/indice/parser/fx.cpp dal/indice/parser/init.cpp dal/indice/fixings.cpp dal/protocol/conventions.cpp dal/protocol/couponrate.cpp dal/protocol/clearer.cpp dal/protocol/collateraltype.cpp dal/protocol/accrualperiod.cpp dal/protocol/payment.cpp dal/protocol/underlying.cpp dal/protocol/optiontype.cpp dal/currency/currency.cpp dal/currency/currencydata.cpp dal/currency/init.cpp dal/time/periodlength.cpp dal/time/dateincrement.cpp dal/time/holidays.cpp dal/time/holidaydata.cpp dal/time/daybasis.cpp dal/time/date.cpp dal/time/dateutils.cpp dal/time/datetime.cpp dal/string/strings.cpp dal/string/stringutils.cpp dal/math/cell.cpp dal/math/cellutils.cpp dal/utilities/environment.cpp dal/math/vectors.cpp dal/storage/archive.cpp
//@ skip dal/platform/host.cpp
//@ bounds equity names of one to three symbolic characters with every delivery form; every pair of currencies; fixings at up to two symbolic times with symbolic values, asked for at any time of a week; fixing paths of up to three dates; spot dates from every day of four weeks with one symbolic holiday and lags of 0..3 business days; symbolic dates over a month for underlyings
//@ run h_equity split=5 budget=60
//@ run h_bad split=2 budget=60
//@ run h_fx split=4 budget=60
//@ run h_fixing split=4 budget=60
//@ run h_path split=3 budget=60
//@ run h_allin split=4 budget=60
//@ run h_libor split=4 budget=90 ta=30000
//@ run h_ir split=5 budget=60
//@ run h_rates budget=30
//@ run h_facts split=3 budget=30
//@ run h_under split=3 budget=60
//@ run h_pay split=2 budget=60
#include <cstring>
#include <dal/platform/platform.hpp>
#include <dal/string/strings.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/indice/index.hpp>
#include <dal/indice/indexparse.hpp>
#include <dal/indice/indexpath.hpp>
#include <dal/indice/index/equity.hpp>
#include <dal/indice/index/fx.hpp>
#include <dal/indice/index/ir.hpp>
#include <dal/indice/parser/init.hpp>
#include <dal/currency/currencydata.hpp>
#include <dal/currency/init.hpp>
#include <dal/protocol/conventions.hpp>
#include <dal/protocol/couponrate.hpp>
#include <dal/protocol/clearer.hpp>
#include <dal/protocol/payment.hpp>
#include <dal/protocol/underlying.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/dateutils.hpp>
#include "sym.h"
#include "cal.h"
using namespace Dal;
namespace Dal::Host { void LocalTime(int* y, int* m, int* d, int* h, int* mi, int* s) { if (y) *y = 2024; if (m) *m = 5; if (d) *d = 3; if (h) *h = 1; if (mi) *mi = 2; if (s) *s = 3; } }
static Date_ base() { return Date_(2024, 1, 1); }
static Date_ at(int o) { return base().AddDays(o); }
static DateTime_ noon(int o) { return DateTime_(at(o), 12, 0); }
static Date_ ymd(int y, int m, int d) { return Date::FromExcel((int)ref::excel(y, m, d)); }
static const char* CN[3] = {"c0", "c1", "c2"};
static String_ eqname(int n) { String_ s; for (int i = 0; i < n; ++i) { char c = (char)sym_i64(CN[i], 33, 126); ASSUME((c != ']') & (c != '[')); s += c; } return s; }
struct Env_ : Environment_ { const Entry_* e; Env_(const Entry_* p) : e(p) {} struct It_ : IterImp_ { const Entry_* p; It_(const Entry_* q) : p(q) {} bool Valid() const override { return p != nullptr; } IterImp_* Next() const override { return new It_(nullptr); } const Entry_& operator*() const override { return *p; } }; IterImp_* XBegin() const override { return new It_(e); } };
HARNESS(h_equity) {
    IndexParsers_::Init(); int k = sym_choice("delivery", 5), n = 1 + sym_choice("len", 3); String_ nm = eqname(n); int o = (int)sym_i64("day", 27, 33), f = (int)sym_i64("fix", 0, 330); Date_ del = at(o); static const char* INC[3] = {"3CD", "2W", "1Y"}; String_ inc(INC[k > 1 ? k - 2 : 0]);
    std::unique_ptr<Index::Equity_> e(new Index::Equity_(nm, k == 1 ? &del : nullptr, k > 1 ? &inc : nullptr));
    String_ want = String_("EQ[") + nm + "]"; if (k == 1) want += "@" + Date::ToString(del); if (k > 1) want += ">" + inc; ASSERT(strcmp(e->Name().c_str(), want.c_str()) == 0, "an equity index is named by its asset and its delivery");
    std::unique_ptr<Index_> p(Index::Parse(e->Name())); auto q = dynamic_cast<Index::Equity_*>(p.get()); ASSERT(q != nullptr, "the name of an equity index is that of an equity index"); ASSERT(strcmp(q->eqName_.c_str(), nm.c_str()) == 0 && strcmp(q->Name().c_str(), want.c_str()) == 0, "a name parses to the index it names");
    DateTime_ t = noon(f); Date_ x = k == 0 ? Date::Maximum() : k == 1 ? del : k == 2 ? at(f + 3) : k == 3 ? at(f + 14) : ymd(2025, 1, 1).AddDays(f);
    if (k == 4) ASSUME((f != 59)); if (k == 4 && f > 59) x = x.AddDays(-1);
    ASSERT(e->Delivery(t) == x && q->Delivery(t) == x, "delivery is at the date given, after the delay given, or never");
    Handle_<Index_> c = Index::Clone(*e); ASSERT(IndexKey_(c) == IndexKey_(Handle_<Index_>(p.release())), "a clone is the same index");
}
HARNESS(h_bad) {
    IndexParsers_::Init(); int k = sym_choice("case", 2);
    if (k == 0) { char c = (char)sym_i64("c", 33, 126); ASSUME(c != ']'); String_ s("EQ["); s += c; bool th = false; try { std::unique_ptr<Index_> p(Index::Parse(s)); } catch (const std::exception&) { th = true; } ASSERT(th, "an equity name that is not closed is refused"); }
    else { static const char* B[] = {"ZZ[a]", "EQ[a]@", "EQ[a]@2024-13-01", "FX[USD]", "FX[USD/XXX]", "FX[USDEUR]", "FX[/]", "IR:USD,3M"}; for (auto b : B) { bool th = false; try { std::unique_ptr<Index_> p(Index::Parse(b)); } catch (const std::exception&) { th = true; } ASSERT(th, "malformed names and unknown kinds of index are refused"); } }
}
HARNESS(h_fx) {
    IndexParsers_::Init(); auto all = CcyListAll(); int i = sym_choice("dom", 4), j = sym_choice("fgn", (int)all.size()); Ccy_ d = all[i], f = all[j]; Index::Fx_ x(d, f); String_ want = String_("FX[") + f.String() + "/" + d.String() + "]", inv = String_("FX[") + d.String() + "/" + f.String() + "]"; ASSERT(x.Name() == want, "an exchange rate is named foreign over domestic");
    std::unique_ptr<Index_> p(Index::Parse(x.Name())); ASSERT(dynamic_cast<Index::Fx_*>(p.get()) && p->Name() == want, "a name parses to the index it names");
    int kind = sym_choice("stored", 4); int a = (int)sym_i64("ta", 0, 3), b = (int)sym_i64("tb", 0, 3), q = (int)sym_i64("tq", 0, 3); double v = sym_range("v", 0.5, 2), w = sym_range("w", 0.5, 2); FixingsAccess_ fx; if (kind & 1) fx.fixings_[want] = Handle_<Fixings_>(new Fixings_(want, std::map<DateTime_, double>{{noon(a), v}})); if ((kind & 2) && i != j) fx.fixings_[inv] = Handle_<Fixings_>(new Fixings_(inv, std::map<DateTime_, double>{{noon(b), w}}));
    Env_ env(&fx); bool direct = (kind & 1) && q == a, inverse = i == j ? direct : ((kind & 2) && q == b); double r = 0; bool th = false; try { r = p->Fixing(&env, noon(q)); } catch (const std::exception&) { th = true; }
    ASSERT(th == !(direct || inverse), "an exchange rate fixes exactly when it or its inverse has a fixing"); if (direct) ASSERT(r == v, "an exchange rate's own fixing is used first"); else if (inverse) CLOSE(r * w, 1.0, "without it the inverse of the inverse rate's fixing is used");
}
HARNESS(h_fixing) {
    int k = sym_choice("case", 4), n = sym_choice("n", 3); int a = (int)sym_i64("ta", 0, 6), b = (int)sym_i64("tb", 0, 6), q = (int)sym_i64("tq", 0, 6); if (n == 2) ASSUME(a != b); double v = sym_range("v", -10, 10), w = sym_range("w", -10, 10); std::map<DateTime_, double> m; if (n > 0) m[noon(a)] = v; if (n > 1) m[noon(b)] = w; FixingsAccess_ fx; fx.fixings_["EQ[x]"] = Handle_<Fixings_>(new Fixings_("EQ[x]", m)); fx.fixings_["EQ[y]"] = Handle_<Fixings_>(new Fixings_("EQ[y]", std::map<DateTime_, double>{{noon(q), 77.0}}));
    Env_ env(&fx), none(nullptr); DateTime_ t = k == 3 ? DateTime_(at(q), 12, 1) : noon(q); if (k == 1) { ASSERT(throws_([&] { (void)Index::PastFixing(&none, "EQ[x]", t); }) && Index::PastFixing(&none, "EQ[x]", t, true) == -Dal::INF && Index::PastFixing(nullptr, "EQ[x]", t, true) == -Dal::INF, "without access to fixings there is no fixing"); return; }
    if (k == 2) { ASSERT(throws_([&] { (void)Index::PastFixing(&env, "EQ[z]", t); }) && Index::PastFixing(&env, "EQ[z]", t, true) == -Dal::INF, "an index without fixings has no fixing"); return; }
    bool ha = n > 0 && k == 0 && q == a, hb = n > 1 && k == 0 && q == b; bool th = false; double r = 0; try { r = Index::Equity_("x").Fixing(&env, t); } catch (const std::exception&) { th = true; }
    ASSERT(th == !(ha || hb), "a fixing is found at its own time and at no other"); if (ha) ASSERT(r == v, "the fixing found is the one stored"); if (hb) ASSERT(r == w, "the fixing found is the one stored"); double s = Index::PastFixing(&env, "eq[X]", t, true); ASSERT(th ? s == -Dal::INF : s == r, "a quiet search marks a missing fixing");
}
HARNESS(h_path) {
    int k = sym_choice("case", 3); int a = (int)sym_i64("ta", 0, 3), b = (int)sym_i64("tb", 0, 3), q = (int)sym_i64("tq", 0, 3); ASSUME(a != b); double v = sym_range("v", -100, 100), w = sym_range("w", -100, 100), lo = sym_range("lo", -100, 100), hi = sym_range("hi", -100, 100); ASSUME(lo <= hi); std::map<DateTime_, double> m; m[noon(a)] = v; m[noon(b)] = w; IndexPathHistorical_ h(m); std::pair<double, double> R(lo, hi); bool there = q == a || q == b; double x = q == a ? v : w;
    if (!there) { ASSERT(throws_([&] { (void)h.Expectation(noon(q), R); }) && throws_([&] { (void)h.FixInRangeProb(noon(q), R, 1.0); }), "a path has no value where it has no fixing"); return; }
    if (k == 0) { double e = h.Expectation(noon(q), R); ASSERT(e == (x < lo ? lo : x > hi ? hi : x), "a known fixing is expected at its value within the collar"); return; }
    double ramp = k == 1 ? 0.0 : sym_range("ramp", 0.125, 16); double p = h.FixInRangeProb(noon(q), R, ramp); ASSERT((p >= 0) & (p <= 1), "a probability is between zero and one");
    if (x >= lo && x <= hi) ASSERT(p == 1, "a fixing in the range is certainly in it"); else { double d = x < lo ? lo - x : x - hi; if (d > ramp) ASSERT(p == 0, "a fixing beyond the ramp is certainly outside"); else CLOSE(p * ramp, ramp - d, "the ramp is linear"); }
}
HARNESS(h_allin) {
    int k = sym_choice("interval", 4), n = 1 + sym_choice("n", 3); static const double IV[4] = {1, 2, 0.5, 0}; double iv = IV[k]; double v[3]; static const char* VN[3] = {"v0", "v1", "v2"}; std::map<DateTime_, double> m; for (int i = 0; i < n; ++i) { v[i] = sym_range(VN[i], -10, 10); m[noon(i + 1)] = v[i]; } double lo = sym_range("lo", -10, 10), hi = lo + sym_range("w", 0, 5); IndexPathHistorical_ h(m); std::pair<double, double> R(lo, hi); int f = sym_choice("from", 2), t = 2 + sym_choice("to", 3);
    if (k == 3) { ASSERT(throws_([&] { (void)h.AllInRangeProb(noon(f), noon(t), R, iv, 0.0); }), "a monitoring interval must be positive"); return; }
    bool all = true; for (int i = 0; i < n; ++i) { bool seen = i + 1 >= f && i + 1 < t && (k != 1 || (i + 1 - f) % 2 == 0); if (seen) all = all & (v[i] >= lo) & (v[i] <= hi); }
    ASSERT(h.AllInRangeProb(noon(f), noon(t), R, iv, 0.0) == (all ? 1.0 : 0.0), "all fixings monitored are in the range or not");
}
static int hday; static bool bus(int d) { return (d % 7 < 5) & (d != hday); }
HARNESS(h_libor) {
    int lag = sym_choice("lag", 4), dow = sym_choice("dow", 7); hday = (int)sym_i64("h", 7, 20); ASSUME(hday % 7 < 5); Vector_<Date_> hs; hs.push_back(at(hday)); Holidays::AddCenter("LL", hs); Ccy_ c("USD"); Ccy::Conventions::LiborFixHolidays().XWrite()(c, Holidays_("LL")); Ccy::Conventions::LiborFixDays().XWrite()(c, lag);
    int d = 7 + dow; Date_ s = Libor::StartFromFix(c, at(d)); int e = s - base(); int cnt = 0; for (int k = 0; k < 28; ++k) cnt += (int)((k > d) & (k <= e) & bus(k)); if (lag == 0) { int o = d; while (!bus(o)) ++o; ASSERT(e == o, "without a lag a rate starts on the next business day"); } else ASSERT(bus(e) && cnt == lag, "a rate starts the stated number of business days after it fixes");
    DateTime_ fx = Libor::FixFromStart(c, at(d)); int g = fx.Date() - base(); int cn = 0; for (int k = 0; k < 28; ++k) cn += (int)((k < d) & (k >= g) & bus(k)); if (lag == 0) { int o = d; while (!bus(o)) --o; ASSERT(g == o, "without a lag a rate fixes on the business day before"); } else ASSERT(bus(g) && cn == lag, "a rate fixes the stated number of business days before it starts");
    if (bus(d)) { ASSERT(Libor::FixFromStart(c, s).Date() == at(d) && Libor::StartFromFix(c, fx.Date()) == at(d), "from a business day, fixing and start undo each other"); }
    ASSERT(fx == DateTime_(fx.Date(), 10), "rates fix at ten");
}
HARNESS(h_ir) {
    int k = sym_choice("start", 5), d = (int)sym_i64("fix", 7, 20), n = (int)sym_i64("n", 0, 20), o = (int)sym_i64("o", 0, 300); Vector_<Date_> none; Holidays::AddCenter("NN", none); Ccy_ c("EUR"); Ccy::Conventions::LiborFixHolidays().XWrite()(c, Holidays_("NN")); Ccy::Conventions::LiborFixDays().XWrite()(c, 2); DateTime_ t = noon(d);
    Cell_ st = k == 0 ? Cell_() : k == 1 ? Cell_((double)n) : k == 2 ? Cell_(at(o)) : k == 3 ? Cell_(noon(o)) : Cell_(String_("2W")); Date_ raw = k == 0 ? at(d) : k == 1 ? at(d + n) : k < 4 ? at(o) : at(d + 14); Index::Libor_ l(c, TradedRate_("LIBOR_3M_CME"), st); Index::Swap_ s(c, "5Y", st); Index::DF_ df(c, st, &st); Date_ want = k == 2 ? raw : Libor::StartFromFix(c, raw); ASSERT(l.StartDate(t) == want && s.StartDate(t) == want, "a rate starts at its date, or spot from its offset"); ASSERT(df.StartDate(t) == raw && df.Maturity(t) == raw, "a discount factor's dates are counted from its fixing");
    if (k == 0 || k == 2 || k == 4) { String_ post = k == 0 ? String_() : k == 2 ? "," + Date::ToString(at(o)) : String_(",2W"); ASSERT(l.Name() == "IR:EUR,LIBOR_3M_CME" + post && s.Name() == "IR:EUR,5Y" + post, "a rate is named by currency, tenor and start"); Cell_ mt(String_("3Y")); Index::DF_ g(c, mt, &st, CollateralType_("GC")); ASSERT(g.Name() == "IR[DF]:EUR" + post + ",3Y" && g.collateral_ == CollateralType_("GC"), "a discount factor is named by currency, start and maturity"); ASSERT(throws_([&] { Index::DF_ b(c, Cell_()); (void)b.Name(); }), "a discount factor needs a maturity"); }
}
HARNESS(h_rates) {
    for (auto& r : TradedRateListAll()) { String_ n(r.String()); ASSERT(r.Period().Months() == (n.find("3M") != String_::npos ? 3 : 6), "a traded rate has the period of its name"); ASSERT(r.Clearer() == Clearer_(n.find("LCH") != String_::npos ? "LCH" : "CME"), "a traded rate has the clearer of its name"); if (n.find("FUT") == String_::npos) ASSERT(FindRate(r.Period(), r.Clearer()) == r, "period and clearer find their rate"); }
    for (auto& c : ClearerListAll()) for (auto& p : PeriodLengthListAll()) { int m = p.Months(); bool th = false; try { TradedRate_ r = FindRate(p, c); ASSERT(r.Period() == p && r.Clearer() == c, "the rate found has the period and clearer asked for"); } catch (const std::exception&) { th = true; } ASSERT(th == (m != 3 && m != 6), "there is no other rate"); }
    ASSERT(throws_([] { (void)TradedRate_().Period(); }) && throws_([] { (void)TradedRate_().Clearer(); }), "an unset rate has neither");
}
HARNESS(h_facts) {
    int k = sym_choice("case", 3); auto& F = Ccy::Conventions::LiborFixDays(); auto all = CcyListAll(); int def = (int)sym_i64("def", 0, 5), a = (int)sym_i64("a", 0, 5), b = (int)sym_i64("b", 0, 5);
    if (k == 0) { for (auto& c : all) ASSERT(throws_([&] { (void)F(c); }), "a fact nobody stated is an error"); F.XWrite()(all[1], a); ASSERT(F(all[1]) == a && throws_([&] { (void)F(all[0]); }), "a fact about one currency is not one about another"); F.XWrite().SetDefault(def); for (int i = 0; i < (int)all.size(); ++i) ASSERT(F(all[i]) == (i == 1 ? a : def), "the default holds where nothing specific does"); F.XWrite()(all[1], b); F.XWrite()(all[2], a); ASSERT(F(all[1]) == b && F(all[2]) == a && F(all[0]) == def, "the last statement holds"); ASSERT(throws_([&] { (void)Ccy::Conventions::LiborDayBasis()(all[0]); }), "facts are independent of each other"); }
    else { Vector_<Date_> none; Holidays::AddCenter("CN.IB", none); if (k == 2) CcyFacts_::Init(); CcyFacts_::Init(); for (auto& c : all) ASSERT(F(c) == (c == Ccy_("CNY") ? 1 : 2), "rates fix two days ahead, in China one"); ASSERT(Ccy::Conventions::LiborFixHolidays()(Ccy_("CNY")) == Holidays_("CN.IB") && throws_([&] { (void)Ccy::Conventions::LiborFixHolidays()(Ccy_("USD")); }), "holidays are those stated"); F.XWrite()(Ccy_("CNY"), a); CcyFacts_::Init(); ASSERT(F(Ccy_("CNY")) == a, "initialising again changes nothing"); }
}
HARNESS(h_under) {
    int k = sym_choice("kind", 3); int d[3]; static const char* DN[3] = {"d0", "d1", "d2"}; for (int i = 0; i < 3; ++i) d[i] = (int)sym_i64(DN[i], 0, 30); bool same1 = sym_choice("same1", 2), same2 = sym_choice("same2", 2); int e01 = d[0] > d[1] ? d[0] : d[1]; Underlying_ u, w;
    Ccy_ c0("USD"), c1("EUR"); Handle_<Index_> i0(new Index::Equity_("a")), i0b(new Index::Equity_("A")), i1(new Index::Equity_("b")); String_ r0("N"), r1("M");
    auto inc = [&](Underlying_& x, bool first, int day) { if (k == 0) x.Include(first ? c0 : c1, at(day)); else if (k == 1) x.Include(IndexKey_(first ? (day & 1 ? i0 : i0b) : i1), noon(day)); else x.Include(first ? r0 : r1, at(day)); };
    inc(u, true, d[0]); inc(u, same1, d[1]); inc(w, same2, d[2]); u += w; int first = d[0], second = -1; if (same1) first = e01; else second = d[1]; if (same2) { if (d[2] > first) first = d[2]; } else if (d[2] > second) second = d[2];
    int n = k == 0 ? (int)u.payCcys_.size() : k == 1 ? (int)u.indices_.size() : (int)u.credits_.size(); ASSERT(n == (second < 0 ? 1 : 2) && (int)(u.payCcys_.size() + u.indices_.size() + u.credits_.size()) == n, "an underlying lists each thing it depends on once");
    auto get = [&](bool f) { return k == 0 ? u.payCcys_[f ? c0 : c1] - base() : k == 1 ? u.indices_[IndexKey_(f ? i0 : i1)].Date() - base() : u.credits_[f ? r0 : r1] - base(); }; ASSERT(get(true) == first && (second < 0 || get(false) == second), "an underlying keeps the last date it is needed");
    ASSERT(w.payCcys_.size() + w.indices_.size() + w.credits_.size() == 1, "what is merged in stays as it was");
}
HARNESS(h_pay) {
    int k = sym_choice("accrual", 2); int s = (int)sym_i64("s", 0, 300), l = (int)sym_i64("l", 0, 300), kn = (int)sym_i64("k", 0, 300); double no = sym_range("n", -100, 100); DayBasis_ b("ACT_365F"); AccrualPeriod_ a(at(s), at(s + l), no, b); CLOSE(a.dcf_ * 365, (double)l, "a period's fraction is that of its basis"); ASSERT(a.startDate_ == at(s) && a.endDate_ == at(s + l) && a.notional_ == no && a.couponBasis_ == b && !a.isStub_, "a period is as stated");
    AccrualPeriod_ a2(at(s), at(s + l), no, b, Handle_<DayBasis::Context_>(), true); ASSERT(a2.isStub_ && a2.dcf_ == a.dcf_ && a2.startDate_ == a.startDate_ && a2.endDate_ == a.endDate_ && a2.notional_ == no, "a stub is a period");
    Payment::Info_ i("des", noon(kn), Payment::Conditions_(), k ? &a : nullptr); ASSERT(i.description_ == "des" && i.knownTime_ == noon(kn) && i.conditions_.exerciseCondition_ == Payment::Conditions_::Exercise_::UNCONDITIONAL && i.period_.has_value() == (k == 1), "a payment's information is as stated"); if (k) ASSERT(i.period_->dcf_ == a.dcf_ && i.period_->startDate_ == at(s), "a payment keeps its period");
    Payment_ p(noon(s), Ccy_("JPY"), at(s + l), "stream", i), q(p); ASSERT(q.eventTime_ == noon(s) && q.ccy_ == Ccy_("JPY") && q.date_ == at(s + l) && q.stream_ == "stream" && q.commitDate_ == Date::Minimum() && q.tag_.knownTime_ == noon(kn) && q.tag_.period_.has_value() == (k == 1), "a payment is as stated and copies"); ASSERT(Payment::Info_().knownTime_ == DateTime::Minimum() && Payment::Null().get() == nullptr, "by default a payment has always been known");
}
