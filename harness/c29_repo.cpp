//@ prop C29
//@ src dal/storage/globals.cpp dal/storage/audit.cpp dal/storage/archive.cpp dal/storage/box.cpp dal/storage/bag.cpp dal/indice/fixings.cpp dal/utilities/environment.cpp public/src/repository.cpp public/src/globals.cpp dal/math/cell.cpp dal/math/cellutils.cpp dal/string/strings.cpp dal/string/stringutils.cpp dal/time/date.cpp dal/time/dateutils.cpp dal/time/datetime.cpp
//@ skip dal/platform/host.cpp
//@ bounds histories of three operations on up to four objects of two types whose names are made of symbolic characters (equal, differing in case, prefixes of each other, empty); global dates symbolic over a month, up to three nested overrides; two stores of up to two fixings each at symbolic times; environments of up to three entries
//@ stubs the clock gives a chosen day
//@ run h_repo split=8 budget=90 tbudget=600
//@ run h_find split=2 budget=60
//@ run h_dates split=3 budget=60
//@ run h_fixings split=4 budget=60
//@ run h_env split=4 budget=60
//@ run h_audit split=3 budget=60
#include <dal/platform/platform.hpp>
#include <dal/storage/globals.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/box.hpp>
#include <dal/storage/audit.hpp>
#include <dal/storage/archive.hpp>
#include <dal/platform/host.hpp>
#include <dal/time/dateutils.hpp>
#include <public/src/repository.hpp>
#include <public/src/global.hpp>
#include "sym.h"
using namespace Dal;
static int today = 3;
namespace Dal::Host { void LocalTime(int* y, int* m, int* d, int* h, int* mi, int* s) { if (y) *y = 2024; if (m) *m = 5; if (d) *d = today; if (h) *h = 1; if (mi) *mi = 2; if (s) *s = 3; } }
struct T_ : Storable_ { T_(const String_& n) : Storable_("Thing", n) {} void Write(Archive::Store_&) const override {} };
static const char* NM[] = {"v0","v1","v2","v3","v4","v5","v6","v7","v8","v9","v10","v11","v12","v13","v14","v15"};
static int nmc;
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool sameName(const String_& a, const String_& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (low(a[i]) != low(b[i])) return false; return true; }
static char chr() { char c = (char)sym_i64(NM[nmc++], 'A', '~'); ASSUME((c == 'a') | (c == 'A') | (c == 'b') | (c == '~')); return c; }
static const char* MODE[] = {"NONE", "NAME_NONEMPTY", "NAME", "TYPE"};
HARNESS(h_repo) {
    nmc = 0; int sh = sym_choice("names", 8); char c0 = chr(), c1 = chr(); String_ n0(1, c0), n1(1, c1); Vector_<String_> nm(4);
    switch (sh % 4) { case 0: nm[0] = n0; nm[1] = n1; nm[2] = n0; break; case 1: nm[0] = n0; nm[1] = n0 + "~" + n1; nm[2] = n1; break; case 2: nm[0] = ""; nm[1] = ""; nm[2] = n0; break; case 3: nm[0] = n0 + n1; nm[1] = n0; nm[2] = n1 + n0; break; }
    nm[3] = nm[0]; Handle_<Storable_> o[4]; for (int i = 0; i < 3; ++i) o[i] = Handle_<Storable_>(new Box_(nm[i], Matrix_<Cell_>(1, 1))); o[3] = Handle_<Storable_>(new T_(nm[3]));
    ObjectAccess_ repo; bool live[4] = {false, false, false, false}; String_ tag[4]; ASSERT(repo.Size() == 0, "a repository starts empty");
    auto check = [&] { int n = 0; for (int i = 0; i < 4; ++i) n += live[i]; ASSERT(repo.Size() == n, "the repository holds what was added and not erased"); for (int i = 0; i < 4; ++i) if (!tag[i].empty()) { Handle_<Storable_> h = repo.Fetch(tag[i], true); ASSERT(live[i] ? h.get() == o[i].get() : !h, "a tag fetches its own object as long as it is there"); if (!live[i]) ASSERT(throws_([&] { (void)repo.Fetch(tag[i]); }), "fetching what is not there is an error"); } };
    auto add = [&](int i, int mode) { for (int j = 0; j < 4; ++j) { bool sameType = (j == 3) == (i == 3); if (mode == 3 && sameType) live[j] = false; if ((mode == 2 || (mode == 1 && nm[i].size() > 0)) && sameType && sameName(nm[i], nm[j])) live[j] = false; } live[i] = true; tag[i] = repo.Add(o[i], RepositoryErase_(String_(MODE[mode]))); };
    add(0, 0); add(sym_choice("first", 4), 0); check(); int ops = sh < 4 ? 1 : 2;
    for (int k = 0; k < ops; ++k) { int op = sym_choice(k == 0 ? "op0" : "op1", 12); if (op < 8) { int i = op / 4 ? 3 - k : 1 + k; add(i, op % 4); } else { int i = op - 8; bool was = live[i]; live[i] = false; if (k == 0) ASSERT(repo.Erase(*o[i]) == was, "erasing an object says whether it was there"); else ASSERT(EraseRepository({o[i]}) == (int)was, "erasing objects counts those that were there"); } check(); }
}
HARNESS(h_find) {
    nmc = 0; ObjectAccess_ repo; int k = sym_choice("erase", 2); char c = (char)sym_i64("c", 'a', 'd'); Handle_<Storable_> a(new Box_(String_("x") + String_(1, c), Matrix_<Cell_>(1, 1))), b(new T_("xb")), e(new Box_("yb", Matrix_<Cell_>(1, 1))); RepositoryErase_ none(String_("NONE")); (void)repo.Add(a, none); (void)repo.Add(b, none); (void)repo.Add(e, none);
    int want = (c == 'b') ? 3 : 2; if (k == 0) { auto f = FindRepository("b~"); ASSERT((int)f.size() == want, "a search finds every object whose tag matches"); for (auto& h : f) ASSERT(h.get() == b.get() || h.get() == e.get() || (c == 'b' && h.get() == a.get()), "a search finds only objects whose tag matches"); ASSERT(SizeRepository() == 3, "a search leaves the repository as it was"); ASSERT((int)FindRepository("Thing").size() == 1 && (int)FindRepository("").size() == 3, "a search matches anywhere in the tag"); }
    else { ASSERT(repo.Erase(String_("b~")) == want && repo.Size() == 3 - want, "erasing by pattern erases exactly the matches and counts them"); }
}
static Date_ day(const char* n) { return Date_(2024, 1, 1).AddDays((int)sym_i64(n, 0, 30)); }
HARNESS(h_dates) {
    int k = sym_choice("case", 3); today = (int)sym_i64("today", 1, 28); Date_ td(2024, 5, 3); td = Date_(2024, 5, 1).AddDays(today - 1);
    if (k == 0) { Date_ d0 = Global::Dates_::EvaluationDate(); ASSERT(d0 == td, "an evaluation date never set is today"); today = today == 1 ? 2 : 1; ASSERT(Global::Dates_::EvaluationDate() == d0, "the evaluation date does not move once it has been asked for"); ASSERT(Global::Dates_::AccountingDate() == Date_(2024, 5, 1).AddDays(today - 1), "an accounting date never set is today"); }
    Date_ a = day("a"), b = day("b"), c = day("c"), d = day("d"); SetEvaluationDate(a); Global::Dates_::SetAccountingDate(b); ASSERT(GetEvaluationDate() == a && Global::Dates_::AccountingDate() == b, "the global dates are the ones set, each its own");
    if (k == 1) { { auto s = XGLOBAL::SetEvaluationDateInScope(c); ASSERT(GetEvaluationDate() == c && Global::Dates_::AccountingDate() == b, "an override holds in its scope"); { auto t = XGLOBAL::SetEvaluationDateInScope(d); auto u = XGLOBAL::SetAccountingDateInScope(c); ASSERT(GetEvaluationDate() == d && Global::Dates_::AccountingDate() == c, "overrides nest"); auto v(std::move(t)); ASSERT(GetEvaluationDate() == d, "moving an override changes nothing"); } ASSERT(GetEvaluationDate() == c && Global::Dates_::AccountingDate() == b, "the end of a scope restores the date before it"); } ASSERT(GetEvaluationDate() == a, "the end of a scope restores the date before it"); }
    if (k == 2) { try { auto s = XGLOBAL::SetEvaluationDateInScope(c); THROW("x"); } catch (const std::exception&) {} ASSERT(GetEvaluationDate() == a, "an error restores the overridden date"); { std::unique_ptr<XGLOBAL::ScopedOverride_<Date_>> keep; { auto t = XGLOBAL::SetEvaluationDateInScope(c); keep.reset(new XGLOBAL::ScopedOverride_<Date_>(std::move(t))); } ASSERT(GetEvaluationDate() == c, "an override that was moved on does not end with its old scope"); keep.reset(); ASSERT(GetEvaluationDate() == a, "an override that was moved on restores the date when it ends"); } SetEvaluationDate(c); SetEvaluationDate(d); ASSERT(GetEvaluationDate() == d && Global::Dates_::AccountingDate() == b && SizeRepository() == 2, "setting a date again replaces it"); }
}
HARNESS(h_fixings) {
    nmc = 0; int k = sym_choice("sizes", 4); bool app = sym_choice("append", 2) == 1; int n1 = k < 2 ? 2 : 1, n2 = k % 2 ? 2 : k == 0 ? 1 : 0; Vector_<DateTime_> t; Vector_<> v; FixHistory_::vals_t m1, m2;
    for (int i = 0; i < n1 + n2; ++i) { t.push_back(DateTime_(Date_(2024, 1, 1).AddDays((int)sym_i64(NM[nmc++], 0, 5)), 12, 0)); v.push_back(sym_range(NM[nmc++], 0, 100)); if (i < n1) { if (i) ASSUME(t[0] != t[1]); m1[t[i]] = v[i]; } else { if (i > n1) ASSUME(t[n1] != t[i]); m2[t[i]] = v[i]; } }
    int s1 = XGLOBAL::StoreFixings("EQ[x]", FixHistory_(m1), app); ASSERT(s1 == n1, "the number of fixings stored is reported"); (void)XGLOBAL::StoreFixings("EQ[y]", FixHistory_(), app); int s2 = XGLOBAL::StoreFixings("eq[X]", FixHistory_(m2), app);
    FixHistory_::vals_t want = app ? m1 : FixHistory_::vals_t(); for (auto& x : m2) want[x.first] = x.second; FixHistory_ h = Global::Fixings_().History("EQ[x]"); ASSERT(s2 == (int)want.size() && h.Vals().size() == want.size(), "appending merges with what was there, replacing removes it");
    for (auto& x : want) ASSERT(h.Find(x.first) == x.second, "a later fixing replaces an earlier one at its time, the others stay"); ASSERT(Global::Fixings_().History("EQ[y]").Vals().empty() && Global::Fixings_().History("EQ[z]").Vals().empty(), "an index without fixings has an empty history"); SetEvaluationDate(Date_(2024, 1, 3)); ASSERT(Global::Fixings_().History("EQ[x]").Vals().size() == want.size() && GetEvaluationDate() == Date_(2024, 1, 3), "dates and fixings are kept apart");
}
struct A_ : Environment::Entry_ { int v; A_(int v = 0) : v(v) {} };
struct B_ : A_ { B_(int v = 0) : A_(v) {} };
struct C_ : Environment::Entry_ { int v; C_(int v = 0) : v(v) {} };
HARNESS(h_env) {
    int k = sym_choice("case", 4); int x = (int)sym_i64("x", -9, 9), y = (int)sym_i64("y", -9, 9); _ENV = nullptr; ASSERT(Environment::Find<A_>(_env) == nullptr && Environment::Collect<A_>(_env).empty(), "nothing is found in an empty environment"); A_ a(x); B_ b(y); C_ c(x + y);
    if (k == 0) { ENV_ADD(a); ASSERT(Environment::Find<A_>(_env)->v == x && !Environment::Find<B_>(_env), "an entry is found by its type"); { ENV_ADD(b); ASSERT(Environment::Find<A_>(_env)->v == y && Environment::Find<B_>(_env)->v == y, "the innermost entry is found first"); auto all = Environment::Collect<A_>(_env); ASSERT(all.size() == 2 && all[0]->v == y && all[1]->v == x, "every entry of a type is collected, innermost first"); ENV_ADD(c); ASSERT(Environment::Find<A_>(_env) == &b && Environment::Find<C_>(_env)->v == x + y, "other entries do not hide one"); int n = 0; Environment::Iterate(_env, [&](const Environment::Entry_&) { ++n; }); ASSERT(n == 3, "every entry is visited once"); } ASSERT(Environment::Find<A_>(_env)->v == x && !Environment::Find<C_>(_env), "entries leave with their scope"); }
    else if (k == 1) { ENV_ADD(a); const Environment_* before = _env; try { ENV_ADD(b); THROW("x"); } catch (const std::exception&) {} ASSERT(_env == before && Environment::Find<A_>(_env)->v == x, "entries leave with their scope when an error passes"); }
    else if (k == 2) { Vector_<Handle_<Environment::Entry_>> v; int n = sym_choice("n", 4); for (int i = 0; i < n; ++i) v.push_back(Handle_<Environment::Entry_>(new A_(i == 1 ? y : x))); Environment::Base_ base(v); _env = &base; auto all = Environment::Collect<A_>(_env); ASSERT((int)all.size() == n, "every entry of a list is visited"); for (int i = 0; i < n; ++i) ASSERT(all[i]->v == (i == 1 ? y : x), "a list is visited in its order"); { ENV_ADD(c); ASSERT(Environment::Find<C_>(_env) == &c && (int)Environment::Collect<A_>(_env).size() == n, "entries add to a list"); } ASSERT(_env == &base, "entries leave with their scope"); }
    else { auto f = [&](const Environment::Entry_& e) -> const A_* { auto p = dynamic_cast<const A_*>(&e); return p && p->v > 0 ? p : nullptr; }; ENV_ADD(a); ENV_ADD(b); const A_* r = Environment::Find(_env, f); ASSERT(r == (y > 0 ? &b : x > 0 ? &a : nullptr), "a search gives the innermost entry that satisfies it, or nothing"); }
}
HARNESS(h_audit) {
    int k = sym_choice("case", 3); AuditorImp_ aud; ASSERT(aud.mode_ == AuditorImp_::PASSIVE, "an auditor starts passive"); ENV_SEED(aud); Handle_<Box_> p(new Box_("p", Matrix_<Cell_>(1, 1))), q(new Box_("q", Matrix_<Cell_>(1, 1))); Handle_<Box_> r; ASSERT(aud.Find("k").empty(), "an auditor shows nothing until asked to");
    aud.mode_ = AuditorImp_::SHOWING; Environment::Recall(_env, "k", &r); ASSERT(r.IsEmpty(), "nothing is recalled when nothing was noticed"); char c = (char)sym_i64("c", 'a', 'z'); String_ k1(1, c);
    if (k == 0) { aud.mode_ = AuditorImp_::READING; Environment::Audit(_env, "k", p); Environment::Audit(_env, k1, q); ASSERT(aud.Find("k").empty(), "an auditor that reads shows nothing"); aud.mode_ = AuditorImp_::SHOWING; if (c == 'k') ASSERT(throws_([&] { Environment::Recall(_env, "k", &r); }), "conflicting recollections are an error"); else { Environment::Recall(_env, "k", &r); ASSERT(r.get() == p.get(), "what was noticed is recalled by its key"); Handle_<Box_> s; Environment::Recall(_env, k1, &s); ASSERT(s.get() == q.get(), "what was noticed is recalled by its key"); } }
    else if (k == 1) { aud.mode_ = AuditorImp_::READING_EXCLUSIVE; Environment::Audit(_env, "k", p); Environment::Audit(_env, "K", q); aud.mode_ = AuditorImp_::SHOWING; ASSERT(aud.Find("k").size() == 1, "an exclusive auditor keeps the last object of a key"); Environment::Recall(_env, "k", &r); ASSERT(r.get() == q.get(), "an exclusive auditor keeps the last object of a key"); }
    else { aud.mode_ = AuditorImp_::READING; Environment::Audit(_env, "k", p); Environment::Audit(_env, "k", p); aud.mode_ = AuditorImp_::SHOWING; Environment::Recall(_env, "k", &r); ASSERT(r.get() == p.get(), "one object noticed twice is no conflict"); ASSERT(throws_([&] { Environment::Recall(_env, "k", &r); }), "a recollection needs an empty place"); }
}
