//@ prop C33
//@ src dal/utilities/numerics.cpp dal/math/vectors.cpp dal/string/strings.cpp
//@ bounds sequences of up to four symbolic elements, pairs of sequences of up to three elements each, sizes equal or not; statistics of up to three symbolic values; numbers within four of zero, a million and the limits of an int, of either sign; stacks of initial capacity 0 to 4 under every sequence of up to six operations with symbolic elements
//@ run h_seq split=5 budget=60
//@ run h_two split=4 budget=60
//@ run h_sets split=4 budget=60
//@ run h_maps split=4 budget=60
//@ run h_vec split=4 budget=60
//@ run h_stats split=3 budget=60
//@ run h_num split=3 budget=60
//@ run h_stack split=7 budget=60
//@ run h_copy split=5 budget=60
//@ run h_static split=5 budget=60
//@ run h_fun split=3 budget=60
#include <dal/platform/platform.hpp>
#include <dal/math/stacks.hpp>
#include <dal/math/vectors.hpp>
#include <dal/utilities/algorithms.hpp>
#include <dal/utilities/numerics.hpp>
#include <dal/utilities/functionals.hpp>
#include <dal/utilities/maps.hpp>
#include <list>
#include "sym.h"
using namespace Dal;
static const char* AN[4] = {"a0", "a1", "a2", "a3"}; static const char* BN[4] = {"b0", "b1", "b2", "b3"};
static Vector_<int> ints(int n, int lo, int hi, const char** nm = AN) { Vector_<int> r; for (int i = 0; i < n; ++i) r.push_back((int)sym_i64(nm[i], lo, hi)); return r; }
HARNESS(h_seq) {
    int n = sym_choice("size", 5), t = (int)sym_i64("t", -2, 2); Vector_<int> a = ints(n, -2, 2), d(n, 9); Transform(a, [](int x) { return 2 * x + 1; }, &d); Vector_<int> ap = Apply([](int x) { return 2 * x + 1; }, a), cp = Copy(a), rv = Reverse(a), ip(a), c2(n, 9); Transform(&ip, [](int x) { return 2 * x + 1; }); Copy(a, &c2);
    for (int i = 0; i < n; ++i) { ASSERT((d[i] == 2 * a[i] + 1) & (ap[i] == d[i]) & (ip[i] == d[i]), "a transform applies its operation to each element, in order"); ASSERT((cp[i] == a[i]) & (c2[i] == a[i]), "a copy has the same elements"); ASSERT(rv[i] == a[n - 1 - i], "a reversal has them in reverse"); }
    ASSERT((int)ap.size() == n && (int)cp.size() == n && (int)rv.size() == n, "results have as many elements"); Vector_<int> f = Filter(a, [&](int x) { return x >= t; }); int k = 0; for (int i = 0; i < n; ++i) if (a[i] >= t) { ASSERT(k < (int)f.size() && f[k] == a[i], "filtering keeps the chosen elements in order"); ++k; } ASSERT(k == (int)f.size(), "and no others");
    bool up = true, all = true; for (int i = 0; i < n; ++i) { if (i) up &= a[i - 1] < a[i]; all &= a[i] >= t; } ASSERT(IsMonotonic(a) == up, "a sequence is monotonic when each element is below the next"); bool ne = true; for (int i = 1; i < n; ++i) ne &= a[i - 1] <= a[i]; ASSERT(IsMonotonic(a, std::less_equal<int>()) == ne, "for any order"); ASSERT(AllOf(a, [&](int x) { return x >= t; }) == all, "all of them are when each is");
    if (n) { int hi = a[0], lo = a[0]; for (int i = 1; i < n; ++i) { hi = a[i] > hi ? a[i] : hi; lo = a[i] < lo ? a[i] : lo; } ASSERT((*MaxElement(a) == hi) & (*MinElement(a) == lo), "extremes are the extremes"); } Vector_<int> e(n + 1), fl(a); ASSERT(throws_([&] { Copy(a, &e); }) && throws_([&] { Transform(a, [](int x) { return x; }, &e); }) && throws_([&] { Transform(a, [](int x) { return x; }, (Vector_<int>*)nullptr); }), "a result of another size is refused"); Fill(&fl, t); for (int i = 0; i < n; ++i) ASSERT(fl[i] == t, "filling sets every element");
}
HARNESS(h_two) {
    int n = sym_choice("left", 4), m = sym_choice("right", 4); Vector_<int> a = ints(n, -9, 9), b = ints(m, -9, 9, BN), d(n, 7); auto op = [](int x, int y) { return 3 * x - y; }; Vector_<int> c = Concatenate(a, b), j = Vector::Join(a, b), ap(a); Append(&ap, b); ASSERT((int)c.size() == n + m && c == j && c == ap, "concatenation has the elements of both"); for (int i = 0; i < n + m; ++i) ASSERT(c[i] == (i < n ? a[i] : b[i - n]), "in order"); bool eq = n == m; for (int i = 0; i < n && i < m; ++i) eq &= a[i] == b[i]; ASSERT(((a == b) == eq) & ((a != b) == !eq), "sequences are equal when they have the same elements");
    if (n != m) { Vector_<int> x(a); ASSERT(throws_([&] { Transform(a, b, op, &d); }) && throws_([&] { Apply(op, a, b); }) && throws_([&] { Transform(&x, b, op); }) && throws_([&] { InnerProduct(a, b); }) && throws_([&] { Zip(a, b); }) && throws_([&] { ZipToMap(a, b); }) && throws_([&] { ZipToMultimap(a, b); }), "sequences of unequal size do not combine"); return; }
    Transform(a, b, op, &d); Vector_<int> r = Apply(op, a, b), x(a); Transform(&x, b, op); auto z = Zip(a, b); int ip = 0; Vector_<int> p(a), q(a), s = a * b; p += b; q -= b; for (int i = 0; i < n; ++i) { ip += a[i] * b[i]; ASSERT((d[i] == 3 * a[i] - b[i]) & (r[i] == d[i]) & (x[i] == d[i]), "elements combine in pairs"); ASSERT((z[i].first == a[i]) & (z[i].second == b[i]), "a zip pairs them"); ASSERT((p[i] == a[i] + b[i]) & (q[i] == a[i] - b[i]) & (s[i] == a[i] * b[i]), "vector arithmetic is elementwise"); } ASSERT((int)z.size() == n && InnerProduct(a, b) == ip, "an inner product sums the products");
}
HARNESS(h_sets) {
    int n = sym_choice("size", 4); Vector_<int> a = ints(n, 0, 3), u = Unique(a), m = Unique(a, [](int x, int y) { return x % 2 < y % 2; }); for (int i = 1; i < (int)u.size(); ++i) ASSERT(u[i - 1] < u[i], "unique elements are sorted, each once"); for (int i = 0; i < n; ++i) { bool in = false, im = false; for (int k = 0; k < (int)u.size(); ++k) in |= u[k] == a[i]; for (int k = 0; k < (int)m.size(); ++k) im |= m[k] % 2 == a[i] % 2; ASSERT(in && im, "no element is lost"); ASSERT(BinarySearch(u, a[i]), "each is found"); } for (int k = 0; k < (int)u.size(); ++k) { bool in = false; for (int i = 0; i < n; ++i) in |= u[k] == a[i]; ASSERT(in, "and none is made up"); } for (int i = 1; i < (int)m.size(); ++i) ASSERT(m[i - 1] % 2 < m[i] % 2, "under another order elements are unique in that order");
    int t = (int)sym_i64("t", -1, 4), lo = 0, hi = 0; for (int k = 0; k < (int)u.size(); ++k) { lo += u[k] < t; hi += u[k] <= t; } ASSERT(LowerBound(u, t) - u.begin() == lo && UpperBound(u, t) - u.begin() == hi && BinarySearch(u, t) == (hi > lo), "bounds are the first element not below, and the first above"); 
}
HARNESS(h_maps) {
    int n = sym_choice("size", 4); Vector_<int> a = ints(n, 0, 2), b = ints(n, 5, 9, BN); auto m = ZipToMap(a, b); auto mm = ZipToMultimap(a, b); ASSERT((int)mm.size() == n, "a multimap keeps every pair"); for (int i = 0; i < n; ++i) { int f = i; for (int k = i; k >= 0; --k) if (a[k] == a[i]) f = k; ASSERT(m.count(a[i]) == 1 && m[a[i]] == b[f], "a map keeps the first value of each key"); int c = 0, g = 0; for (auto p = mm.lower_bound(a[i]); p != mm.upper_bound(a[i]); ++p) c += p->second == b[i]; for (int k = 0; k < n; ++k) g += (a[k] == a[i]) & (b[k] == b[i]); ASSERT(c == g, "a multimap keeps each as often as it came"); }
    Vector_<int> k = Keys(m), v = MapValues(m); ASSERT(k.size() == m.size() && v.size() == m.size() && IsMonotonic(k), "keys come in order"); for (int i = 0; i < (int)k.size(); ++i) ASSERT(m[k[i]] == v[i], "values come in the order of their keys");
}
HARNESS(h_vec) {
    int n = sym_choice("size", 4), s = (int)sym_i64("s", -9, 9); Vector_<int> a = ints(n, -9, 9), x(a), y(a), z(a), l = a * s, r = s * a, up = Vector::UpTo(n), v1 = Vector::V1(s), w(n, s); x *= s; y += s; z -= s; ASSERT((int)up.size() == n && (int)v1.size() == 1 && v1[0] == s, "a range has its size"); for (int i = 0; i < n; ++i) { ASSERT((x[i] == a[i] * s) & (l[i] == x[i]) & (r[i] == x[i]) & (y[i] == a[i] + s) & (z[i] == a[i] - s), "vector arithmetic with a number is elementwise"); ASSERT((up[i] == i) & (w[i] == s) & (a(i) == a[i]), "ranges count up from zero"); }
    x = a; x.Swap(&w); ASSERT(w == a, "swapping exchanges"); x.Resize(n + 2); for (int i = 0; i < n + 2; ++i) ASSERT(x[i] == (i < n ? s : 0), "resizing keeps what was there"); double lo = sym_range("lo", -4, 4), hi = sym_range("hi", -4, 4); Vector_<> g = Vector::XRange(lo, hi, n + 2); ASSERT((int)g.size() == n + 2 && g[0] == lo && g[n + 1] == hi, "a grid starts and ends where it was asked to"); for (int i = 0; i < n + 2; ++i) CLOSE(g[i], lo + (hi - lo) * i / (n + 1), "and is evenly spaced");
}
HARNESS(h_stats) {
    int n = 1 + sym_choice("size", 3); Vector_<> a, b; for (int i = 0; i < n; ++i) { a.push_back(sym_range(AN[i], -2, 2)); b.push_back(sym_range(BN[i], -2, 2)); } double sa = 0, sb = 0, l1 = 0, q = 0; for (int i = 0; i < n; ++i) { sa += a[i]; sb += b[i]; l1 += a[i] < 0 ? -a[i] : a[i]; q += a[i] * a[i]; } CLOSE(Accumulate(a), sa, "an accumulation is the sum"); CLOSE(Accumulate(a, [](double x, double y) { return x + y * y; }), q, "or folds its operation"); Vector_<> c = Vector::Centralized(a); double cov = 0; for (int i = 0; i < n; ++i) { CLOSE(c[i], a[i] - sa / n, "centring subtracts the mean"); cov += (a[i] - sa / n) * (b[i] - sb / n); } CLOSE(Vector::Covariance(a, b), cov / n, "covariance is the mean product of deviations");
    if (sym_choice("norm", 2)) { ASSUME(l1 > 0.5); Vector_<> u = Vector::L1Normalized(a); for (int i = 0; i < n; ++i) CLOSE(u[i] * l1, a[i], "the first norm divides by the total size"); } ASSERT(throws_([&] { Vector::Covariance(a, Vector_<>(n + 1)); }) && throws_([&] { Vector::Correlation(a, Vector_<>(n + 1)); }), "series of unequal length are refused");
}
HARNESS(h_num) {
    int c = sym_choice("kind", 3); static const double B[5] = {0, 1e6, -1e6, 2147483651., -2147483651.}; double x = c == 2 ? 0.0 : B[sym_choice("near", 5)] + sym_range("x", -4, 4); if (c == 0) { int r; if (throws_([&] { r = AsInt(x); })) { ASSERT((x >= 2147483647.) | (x <= -2147483647.), "a number in range becomes an integer"); return; } ASSERT((x < 2147483647.) & (x > -2147483647.), "a number out of range is refused"); double d = x - r; if (x > 0) ASSERT((d >= -1e-6) & (d < 1), "a number becomes the integer toward zero"); else ASSERT((d <= 1e-6) & (d > -1), "a negative number becomes the integer toward zero"); }
    else if (c == 1) { int r; if (throws_([&] { r = NearestInt(x); })) { ASSERT((x >= 2147483647.) | (x <= -2147483647.), "a number in range is rounded"); return; } ASSERT((x < 2147483647.) & (x > -2147483647.), "a number out of range is refused"); double d = x - r; ASSERT((d <= 0.500001) & (d >= -0.500001), "rounding goes to the nearest integer"); }
    else { long x = sym_i64("count", -3000000000L, 3000000000L); int r; if (throws_([&] { r = AsInt((std::ptrdiff_t)x); })) ASSERT((x >= 2147483647) | (x <= -2147483647), "a count in range is kept"); else ASSERT(r == x, "a count becomes the same integer, or is refused"); }
}
template <class S_> static void same(S_& s, const int* m, int k) { ASSERT((int)s.Size() == k && s.IsEmpty() == (k == 0), "a stack has the elements pushed and not popped"); for (int i = 0; i < k; ++i) ASSERT(s[i] == m[k - 1 - i], "the most recent first"); if (k) ASSERT(s.Top() == m[k - 1], "the top is the most recent"); }
static const char* ON[6] = {"o0", "o1", "o2", "o3", "o4", "o5"};
HARNESS(h_stack) {
    int m[8], k = 0, last = sym_choice("o0", 7); Stack_<int> s(sym_choice("capacity", 3)); int v = (int)sym_i64("v", -99, 99); for (int i = 0; i < 5; ++i) { int o = i ? (int)sym_choice(ON[i], 7) : last; if (i == 0 && o > 1) o = 0; if (o <= 1) { s.Push(v + i); m[k++] = v + i; } else if (o == 2) { if (!k) return; s.Pop(); --k; } else if (o == 3) { if (!k) return; ASSERT(s.TopAndPop() == m[k - 1], "popping the top gives the most recent"); --k; } else if (o == 4) { if (k < 2) return; s.Pop(2); k -= 2; } else if (o == 5) { s.Reset(); k = 0; } else { s.Clear(); k = 0; ASSERT(s.Capacity() == 0, "a cleared stack holds nothing"); } if (o == 1) { int y = k; for (int x : s) ASSERT(x == m[--y], "iterating visits the most recent first"); ASSERT(y == 0, "and every element"); } } same(s, m, k);
}
HARNESS(h_copy) {
    int how = sym_choice("how", 5), n = sym_choice("source", 4), o = sym_choice("target", 4), cap = sym_choice("capacity", 3), v = (int)sym_i64("v", -99, 99), m[8]; Stack_<int> a(cap), b(2 - cap); for (int i = 0; i < n; ++i) { a.Push(v + i); m[i] = v + i; } for (int i = 0; i < o; ++i) b.Push(7 + i);
    if (how == 0) { if (o) return; Stack_<int> c(a); same(c, m, n); c.Push(5); m[n] = 5; same(c, m, n + 1); same(a, m, n); } else if (how == 1) { b = a; same(b, m, n); b.Push(5); m[n] = 5; same(b, m, n + 1); same(a, m, n); } else if (how == 2) { if (o) return; Stack_<int> c(std::move(a)); same(c, m, n); same(a, m, 0); a.Push(3); c.Push(5); m[n] = 5; same(c, m, n + 1); m[0] = 3; same(a, m, 1); } else if (how == 3) { b = std::move(a); same(b, m, n); same(a, m, 0); a.Push(3); b.Push(5); m[n] = 5; same(b, m, n + 1); m[0] = 3; same(a, m, 1); } else { if (o) return; a = *&a; same(a, m, n); a.Clear(); b = a; b.Push(4); m[0] = 4; same(b, m, 1); }
}
HARNESS(h_static) {
    int m[8], k = 0, v = (int)sym_i64("v", -99, 99), o0 = sym_choice("o0", 5); StaticStack_<int, 6> s; for (int i = 0; i < 5; ++i) { int o = i ? (int)sym_choice(ON[i], 6) : o0 > 1 ? 0 : o0; if (o <= 1) { s.Push(v + i); m[k++] = v + i; } else if (o == 2) { if (!k) return; s.Pop(); --k; } else if (o == 3) { if (!k) return; ASSERT(s.TopAndPop() == m[k - 1], "popping the top gives the most recent"); --k; } else if (o == 4) { if (k < 2) return; ASSERT(s.PopAndTop() == m[k - 2], "topping after the pop gives the one before"); --k; } else { s.Reset(); k = 0; } } same(s, m, k);
}
HARNESS(h_fun) {
    int c = sym_choice("kind", 3); double x = sym_range("x", -4, 4), y = sym_range("y", -4, 4), s = sym_range("s", -2, 2); if (c == 0) { CLOSE(LinearIncrement(s)(x, y), x + s * y, "a linear increment adds its multiple"); CLOSE(AverageIn(s)(x, y), (1 - s) * x + s * y, "an average weighs the new by its fraction"); } else if (c == 1) { auto p = std::make_pair(x, y); ASSERT(GetFirst(p)(p) == x && GetSecond(p)(p) == y && Dereference(&x, y) == x && Dereference((double*)nullptr, y) == y && Identity_<double>()(x) == x, "selectors select"); } else { Vector_<> v; v.push_back(x); v.push_back(y); auto l = LookupIn(v); auto r = XLookupIn(v); v[0] = s; ASSERT(l(0) == x && l(1) == y && r(0) == s && r(1) == y, "a lookup copies its array, or refers to it"); double z = x; ASSIGN(&z, y); ASSIGN((double*)nullptr, y); ASSERT(z == y && DEREFERENCE(&z, s) == y && DEREFERENCE((double*)nullptr, s) == s, "optional results are assigned when asked for"); }
}
