//@ prop C19
//@ src dal/math/ndarray.cpp dal/math/vectors.cpp dal/math/matrix/matrixutils.cpp dal/math/cell.cpp dal/math/cellutils.cpp dal/utilities/numerics.cpp dal/string/strings.cpp
//@ bounds matrices up to 3x3 and three operations (resize to any size up to 3x3, copy, assign, move, swap, append, transpose, scale) in any order with symbolic entries; arrays of one to three dimensions of size up to 3 resized to any such size; format texts of up to four characters over the whole format alphabet and eight nested formats, with argument tables of symbolic numbers
//@ run h_matrix split=9 budget=60
//@ run h_array split=8 budget=60
//@ run h_format split=12 budget=80
//@ run h_utils split=9 budget=60
#include <dal/platform/platform.hpp>
#include <algorithm>
namespace Dal { using std::max; using std::min; using std::copy; }
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/matrixutils.hpp>
#include <dal/math/ndarray.hpp>
#include <dal/math/cell.hpp>
#include <dal/utilities/exceptions.hpp>
#include "sym.h"
using namespace Dal;
static const char* NM[] = {"v0","v1","v2","v3","v4","v5","v6","v7","v8","v9","v10","v11","v12","v13","v14","v15","v16","v17","v18","v19","v20","v21","v22","v23","v24","v25","v26","v27","v28","v29","v30","v31","v32","v33","v34","v35","v36","v37","v38","v39"};
static int nmc;
static double S() { return sym_range(NM[nmc++], -10, 10); }
struct Ref { int r, c; double v[8][4]; Ref() : r(0), c(0) { for (auto& a : v) for (auto& b : a) b = 0; } double at(int i, int j) const { return i < r && j < c ? v[i][j] : 0.0; } };
static void same(const Matrix_<>& m, const Ref& f, const char* msg) {
    ASSERT(m.Rows() == f.r && m.Cols() == f.c, "a matrix has the size it was given"); ASSERT(m.Empty() == (f.r * f.c == 0), "a matrix is empty exactly when it has no elements"); if (m.Rows() != f.r || m.Cols() != f.c) return;
    for (int i = 0; i < f.r; ++i) for (int j = 0; j < f.c; ++j) { CLOSE(m(i, j), f.v[i][j], msg); CLOSE(m.Row(i)[j], f.v[i][j], msg); CLOSE(m.Col(j)[i], f.v[i][j], msg); }
    int n = 0; for (auto p = m.begin(); p != m.end(); ++p, ++n) { CLOSE(*p, f.v[n / f.c][n % f.c], msg); } ASSERT(f.r * f.c == 0 || n == f.r * f.c, "iterating a matrix visits every element once");
    if (f.c > 0 && f.r > 0) { auto col = m.Col(f.c - 1); int k = 0; for (auto p = col.begin(); p != col.end(); ++p, ++k) CLOSE(*p, f.v[k][f.c - 1], msg); ASSERT(k == f.r, "iterating a column visits every row once"); }
}
static Ref fresh(Matrix_<>* m, int r, int c) { Ref f; f.r = r; f.c = c; *m = Matrix_<>(r, c, 7.0); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) (*m)(i, j) = f.v[i][j] = S(); return f; }
static Ref resized(const Ref& f, int r, int c) { Ref g; g.r = r; g.c = c; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) g.v[i][j] = f.at(i, j); return g; }
HARNESS(h_matrix) {
    nmc = 0; int s = sym_choice("size", 9); Matrix_<> m; Ref f = fresh(&m, 1 + s / 3, 1 + s % 3); same(m, f, "a matrix gives back its elements");
    for (int step = 0; step < 2; ++step) {
        int op = sym_choice(step ? "op1" : "op0", 9);
        if (op < 3) { int r = sym_choice(step ? "r1" : "r0", 4), c = op == 0 ? f.c : op == 1 ? 1 : 3; m.Resize(r, c); f = resized(f, r, c); same(m, f, "resizing keeps the common elements and zeroes the new ones"); }
        else if (op == 3) { Matrix_<> n(m); m(0, 0) = m.Rows() && m.Cols() ? m(0, 0) : 0.0; same(n, f, "a copy has the elements of the original"); m.Fill(3.0); same(n, f, "a copy does not change with the original"); m = n; same(m, f, "assignment copies the elements"); }
        else if (op == 4) { Matrix_<> n(std::move(m)); same(n, f, "a moved matrix keeps its elements"); ASSERT(m.Rows() == 0 && m.Empty(), "a moved-from matrix is empty"); m = std::move(n); same(m, f, "move assignment keeps the elements"); ASSERT(n.Rows() == 0, "a move-assigned-from matrix is empty"); n.Resize(2, 2); CLOSE(n(1, 1), 0.0, "a moved-from matrix can be used again"); }
        else if (op == 5) { Matrix_<> n; Ref g = fresh(&n, 2, 2); if (m.Rows()) { m.Swap(&n); same(m, g, "swapping exchanges the elements"); same(n, f, "swapping exchanges the elements"); f = g; } else { m.swap(n); same(m, g, "swapping exchanges the elements"); f = g; } }
        else if (op == 6) { Matrix_<> n; Ref g = fresh(&n, 1, 2); Matrix::Append(&m, n); Ref h = resized(f, f.r + 1, f.c > 2 ? f.c : 2); for (int j = 0; j < 2; ++j) h.v[f.r][j] = g.v[0][j]; f = h; same(m, f, "appending puts the rows below and zeroes the rest"); }
        else if (op == 7) { Matrix_<> n = Matrix::MakeTranspose(m); Ref g; g.r = f.c; g.c = f.r; for (int i = 0; i < f.r; ++i) for (int j = 0; j < f.c; ++j) g.v[j][i] = f.v[i][j]; if (f.r && f.c) { same(n, g, "transposing exchanges rows and columns"); m = n; f = g; } }
        else { double k = S(); m *= k; for (int i = 0; i < f.r; ++i) for (int j = 0; j < f.c; ++j) f.v[i][j] *= k; same(m, f, "scaling multiplies every element"); }
        if (f.r == 0 || f.c == 0) return;
    }
}
HARNESS(h_array) {
    nmc = 0; int s = sym_choice("size", 8), t = sym_choice("newsize", 27), d = sym_choice("dims", 3) + 1; static const int Z[8][3] = {{1,1,1},{2,1,3},{3,2,1},{2,2,2},{1,3,2},{3,1,1},{2,3,2},{1,2,3}}; int o[3] = {Z[s][0], Z[s][1], Z[s][2]}, n[3] = {t % 3 + 1, t / 3 % 3 + 1, t / 9 + 1}; Vector_<int> a, b; for (int i = 0; i < d; ++i) { a.push_back(o[i]); b.push_back(n[i]); } for (int i = d; i < 3; ++i) o[i] = n[i] = 1;
    ArrayN_<double> x(a, 7.0); double v[3][3][3]; auto at = [&](int i, int j, int k) { Vector_<int> w; w.push_back(i); if (d > 1) w.push_back(j); if (d > 2) w.push_back(k); return w; };
    for (int i = 0; i < o[0]; ++i) for (int j = 0; j < o[1]; ++j) for (int k = 0; k < o[2]; ++k) x[at(i, j, k)] = v[i][j][k] = S();
    for (int i = 0; i < o[0]; ++i) for (int j = 0; j < o[1]; ++j) for (int k = 0; k < o[2]; ++k) CLOSE(x[at(i, j, k)], v[i][j][k], "an array gives back its elements");
    if (d == 3) { Cube_<double> c(o[0], o[1], o[2]); for (int i = 0; i < o[0]; ++i) for (int j = 0; j < o[1]; ++j) for (int k = 0; k < o[2]; ++k) c(i, j, k) = v[i][j][k]; for (int i = 0; i < o[0]; ++i) for (int j = 0; j < o[1]; ++j) { ASSERT(c.SliceEnd(i, j) - c.SliceBegin(i, j) == o[2], "a slice covers the last dimension"); for (int k = 0; k < o[2]; ++k) CLOSE(c.SliceBegin(i, j)[k], v[i][j][k], "a slice holds its elements in order"); } c.Resize(n[0], n[1], n[2]); ASSERT(c.SizeI() == n[0] && c.SizeJ() == n[1] && c.SizeK() == n[2], "a resized cube has the new sizes"); for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k) CLOSE(c(i, j, k), (i < o[0] && j < o[1] && k < o[2]) ? v[i][j][k] : 0.0, "resizing a cube keeps the common elements and zeroes the new ones"); }
    x.Resize(b); for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k) CLOSE(x[at(i, j, k)], (i < o[0] && j < o[1] && k < o[2]) ? v[i][j][k] : 0.0, "resizing an array keeps the common elements and zeroes the new ones");
    ArrayN_<double> e(Vector_<int>(d, 0)); e.Resize(b); CLOSE(e[at(0, 0, 0)], 0.0, "an empty array can be resized"); e.Swap(&x); ASSERT(e.Sizes() == b, "swapping exchanges the arrays");
    e *= 2.0; if (o[0] && o[1] && o[2]) CLOSE(e[at(0, 0, 0)], 2.0 * v[0][0][0], "scaling multiplies every element");
}
// reference formatter over small tables of doubles (empty cells are NaN-free: flag e)
struct T { int r, c; double v[12][12]; bool e[12][12]; T(int r_ = 0, int c_ = 0) : r(r_), c(c_) { for (int i = 0; i < 12; ++i) for (int j = 0; j < 12; ++j) { v[i][j] = 0; e[i][j] = true; } } };
static T* ARG[2]; static const char* P; static bool bad;
static T hcat(const T& a, const T& b, bool bottom) { int r = a.r > b.r ? a.r : b.r; T o(r, a.c + b.c); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) { int q = i + (bottom ? r - a.r : 0); o.v[q][j] = a.v[i][j]; o.e[q][j] = a.e[i][j]; } for (int i = 0; i < b.r; ++i) for (int j = 0; j < b.c; ++j) { int q = i + (bottom ? r - b.r : 0); o.v[q][a.c + j] = b.v[i][j]; o.e[q][a.c + j] = b.e[i][j]; } return o; }
static T tr(const T& a) { T o(a.c, a.r); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) { o.v[j][i] = a.v[i][j]; o.e[j][i] = a.e[i][j]; } return o; }
static T ref(int lev) {
    if (lev < 4) { static const char SEP[4] = {':', ';', '.', ','}; T a = ref(lev + 1); if (*P != SEP[lev] || bad) return a; Vector_<T> es; es.push_back(a); while (*P == SEP[lev] && !bad) { ++P; es.push_back(ref(lev + 1)); }
        // all elements of one list are justified together
        T o; bool vert = lev < 2, just = lev == 0 || lev == 2; int m = 0; for (auto& e : es) { int h = vert ? e.c : e.r; if (h > m) m = h; } o = T(vert ? 0 : m, vert ? m : 0); for (auto& e : es) { if (vert) o = tr(hcat(tr(o), tr(e), just)); else o = hcat(o, e, just); if (o.r > 8 || o.c > 8) { bad = true; return o; } } return o; }
    T o; if (*P == '(') { ++P; o = ref(0); if (*P != ')') { bad = true; return o; } ++P; } else if (*P == '0') { ++P; o = T(1, 1); } else if (*P >= '1' && *P <= '9') { int k = *P++ - '1'; if (k < 2) o = *ARG[k]; } else { bad = true; return o; }
    for (; !bad && (*P == 'T' || *P == 't' || *P == 'I' || *P == 'i' || *P == '*'); ++P) { if (*P == 'T' || *P == 't') o = tr(o); else if (*P == '*') { T q(1, o.r * o.c); if (q.c > 8) { bad = true; return o; } for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) { q.v[0][i * o.c + j] = o.v[i][j]; q.e[0][i * o.c + j] = o.e[i][j]; } o = q; } else { T q(o.r, o.c); for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) { q.v[i][j] = o.v[o.r - 1 - i][o.c - 1 - j]; q.e[i][j] = o.e[o.r - 1 - i][o.c - 1 - j]; } o = q; } }
    return o;
}
static void runFormat(const char* txt, bool syntaxOnly) {
    nmc = 0; T t1(2, 2), t2(1, 3); Matrix_<Cell_> a(2, 2), b(1, 3); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { t1.v[i][j] = S(); t1.e[i][j] = false; a(i, j) = Cell_(t1.v[i][j]); } for (int j = 0; j < 3; ++j) { t2.v[0][j] = S(); t2.e[0][j] = false; b(0, j) = Cell_(t2.v[0][j]); }
    ARG[0] = &t1; ARG[1] = &t2; Vector_<const Matrix_<Cell_>*> args; args.push_back(&a); args.push_back(&b); P = txt; bad = false; T o = ref(0); bool ok = !bad && *P == 0 && o.r * o.c > 0; Matrix_<Cell_> m; bool th = throws_([&] { m = Matrix::Format(args, String_(txt)); });
    if (!ok) { ASSERT(th || o.r > 8 || o.c > 8 || o.r * o.c > 8, "a malformed or empty format is rejected"); return; }
    ASSERT(!th, "a well-formed format is accepted"); ASSERT(m.Rows() == o.r && m.Cols() == o.c, "a formatted table has the size of its layout"); if (th || m.Rows() != o.r || m.Cols() != o.c) return;
    for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) { ASSERT(Cell::IsEmpty(m(i, j)) == o.e[i][j], "a formatted table is empty exactly where its layout is"); if (!o.e[i][j] && !Cell::IsEmpty(m(i, j))) CLOSE(Cell::ToDouble(m(i, j)), o.v[i][j], "each argument's cells appear in its place of the layout"); }
}
HARNESS(h_format) {
    static const char AL[12] = {'1', '2', '0', 'T', 'i', '*', ',', ';', '.', ':', '(', ')'}; char txt[24]; int k = sym_choice("c0", 12), n = sym_choice("len", 5);
    static const char* FIX[12] = {"(1,2);0", "1;2T", "(1.2):2I", "(1;2)T*", "2:1", "1.2.0", "(2,0);(1,1)", "((1))T", "(1:2T)I", "(1T,2)*I", "0;1,2", "3;2"};
    if (n == 4) { runFormat(FIX[k], false); return; }
    int i = 0; txt[i++] = AL[k]; for (; i < n; ++i) txt[i] = AL[sym_choice(i == 1 ? "c1" : "c2", 12)]; if (n == 0) i = 0; txt[i] = 0; runFormat(txt, true);
}
HARNESS(h_utils) {
    nmc = 0; int s = sym_choice("size", 9), r = 1 + s / 3, c = 1 + s % 3; bool cols = sym_choice("cols", 2) == 1, ragged = sym_choice("ragged", 2) == 1; int odd = sym_choice("odd", 3); Vector_<Vector_<>> vv(r); for (int i = 0; i < r; ++i) { int n = i == r - 1 && i > 0 ? c + odd - 1 : c; for (int j = 0; j < n; ++j) vv[i].push_back(S()); }
    int w = ragged && r > 1 && odd == 2 ? c + 1 : c; Matrix_<> m = Matrix::FromVectors(vv, cols, true, ragged); ASSERT(m.Rows() == (cols ? w : r) && m.Cols() == (cols ? r : w), "a matrix from vectors has one row (or column) per vector"); for (int i = 0; i < r; ++i) for (int j = 0; j < w; ++j) CLOSE(cols ? m(j, i) : m(i, j), j < (int)vv[i].size() ? vv[i][j] : 0.0, "a matrix from vectors holds their elements, zero where they end");
    bool th = throws_([&] { Matrix::FromVectors(vv, cols, false, false); }); ASSERT(th == (r > 1 && odd != 1), "uneven vectors are rejected when asked for");
    Matrix_<> q = Matrix::Apply([](double x) { return x * 2.0; }, m), z(m); Matrix::Transform(&z, m, [](double x, double y) { return x - 3.0 * y; }); Matrix_<> u(m.Rows(), m.Cols()); Matrix::Transform(m, q, [](double x, double y) { return x * y; }, &u); for (int i = 0; i < m.Rows(); ++i) for (int j = 0; j < m.Cols(); ++j) { CLOSE(q(i, j), 2.0 * m(i, j), "applying maps every element"); CLOSE(z(i, j), -2.0 * m(i, j), "transforming in place maps every element"); CLOSE(u(i, j), 2.0 * m(i, j) * m(i, j), "transforming two matrices pairs their elements"); } Matrix_<> y(m.Rows(), m.Cols()); Matrix::Copy(m, &y); CLOSE(y(m.Rows() - 1, m.Cols() - 1), m(m.Rows() - 1, m.Cols() - 1), "copying copies every element"); CLOSE(Matrix::M1x1(m(0, 0))(0, 0), m(0, 0), "a one-by-one matrix holds its element");
}
