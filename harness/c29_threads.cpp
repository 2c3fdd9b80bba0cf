//@ prop C29
//@ threads yes
//@ src dal/storage/globals.cpp dal/storage/archive.cpp dal/storage/box.cpp dal/indice/fixings.cpp dal/math/cell.cpp dal/math/cellutils.cpp dal/string/strings.cpp dal/string/stringutils.cpp dal/time/date.cpp dal/time/dateutils.cpp dal/time/datetime.cpp
//@ skip dal/platform/host.cpp
//@ bounds two threads working on the repository, the global dates or the fixings, every schedule with at most two preemptions at lock, unlock, create and join; races by happens-before over those schedules
//@ run h_shared race preempt=2 budget=60 split=6
#include <thread>
#include <dal/platform/platform.hpp>
#include <dal/storage/globals.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/box.hpp>
#include <dal/platform/host.hpp>
#include <dal/time/dateutils.hpp>
#include "sym.h"
using namespace Dal;
namespace Dal::Host { void LocalTime(int* y, int* m, int* d, int* h, int* mi, int* s) { if (y) *y = 2024; if (m) *m = 5; if (d) *d = 1; if (h) *h = 1; if (mi) *mi = 2; if (s) *s = 3; } }
HARNESS(h_shared) {
    int k = sym_choice("case", 6); Date_ a(2024, 1, 5), b(2024, 2, 6), c(2024, 3, 7); ObjectAccess_ repo; RepositoryErase_ name(String_("NAME")), none(String_("NONE")); Handle_<Storable_> p(new Box_("n", Matrix_<Cell_>(1, 1))), q(new Box_("n", Matrix_<Cell_>(1, 1)));
    if (k == 0) { Global::Dates_::SetEvaluationDate(a); Date_ got; std::thread t([&] { got = Global::Dates_::EvaluationDate(); }); Global::Dates_::SetEvaluationDate(b); t.join(); ASSERT(got == a || got == b, "a date read while it is set is the old one or the new one"); ASSERT(Global::Dates_::EvaluationDate() == b, "the date set last stays"); }
    else if (k == 1) { Global::Dates_::SetEvaluationDate(a); std::thread t([&] { Global::Dates_::SetEvaluationDate(b); }); Global::Dates_::SetEvaluationDate(c); t.join(); Date_ r = Global::Dates_::EvaluationDate(); ASSERT((r == b || r == c) && repo.Size() == 1, "two threads setting a date leave one date"); }
    else if (k == 2) { std::thread t([&] { (void)repo.Add(p, name); }); (void)repo.Add(q, name); t.join(); ASSERT(repo.Size() == 1, "two threads replacing an object by name leave one object"); }
    else if (k == 3) { String_ tag = repo.Add(p, none), tq; Handle_<Storable_> got; std::thread t([&] { got = repo.Fetch(tag, true); }); bool was = repo.Erase(*p); t.join(); ASSERT(was && (!got || got.get() == p.get()) && repo.Size() == 0, "an object fetched while it is erased is the object or nothing"); }
    else if (k == 4) { FixHistory_::vals_t x, y; x[DateTime_(a, 1, 0)] = 1.0; y[DateTime_(b, 1, 0)] = 2.0; std::thread t([&] { XGLOBAL::StoreFixings("i", FixHistory_(x)); }); XGLOBAL::StoreFixings("i", FixHistory_(y)); t.join(); ASSERT(Global::Fixings_().History("i").Vals().size() == 2, "fixings appended by two threads are all kept"); }
    else { String_ t1, t2; std::thread t([&] { t1 = repo.Add(p, none); }); t2 = repo.Add(q, none); int n = repo.Size(); t.join(); ASSERT(n >= 1 && n <= 2 && repo.Size() == 2 && repo.Fetch(t1).get() == p.get() && repo.Fetch(t2).get() == q.get(), "objects added by two threads are both there"); }
}
