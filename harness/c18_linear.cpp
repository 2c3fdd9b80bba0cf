//@ prop C18
//@ src dal/math/matrix/matrixarithmetic.cpp dal/math/matrix/banded.cpp dal/math/matrix/cholesky.cpp dal/math/matrix/decompositions.cpp dal/math/matrix/decompositionsmisc.cpp dal/math/matrix/sparse.cpp dal/math/matrix/bcg.cpp dal/utilities/numerics.cpp
//@ bounds dense products up to 3x3x3 with every entry symbolic, every aliasing of the result; tridiagonal systems of size 1..5 with symbolic right-hand sides and one symbolic diagonal entry per system; banded systems up to size 5 and two bands, all lower-triangular factors from a set of small values with symbolic right-hand sides; conjugate gradients on 2x2 systems with one-parameter right-hand sides
//@ run h_dense split=10 budget=60
//@ run h_tri split=5 budget=60 ta=20000
//@ run h_band split=6 budget=60 ta=20000
//@ run h_chol split=4 budget=80 ta=20000
//@ run h_misc split=4 budget=60
//@ run h_cg split=4 budget=60 ta=20000
#include <dal/platform/platform.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/matrixarithmetic.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/matrix/cholesky.hpp>
#include <dal/math/matrix/decompositions.hpp>
#include <dal/math/matrix/decompositionsmisc.hpp>
#include <dal/math/matrix/bcg.hpp>
#include "sym.h"
using namespace Dal;
static const char* NM[] = {"v0","v1","v2","v3","v4","v5","v6","v7","v8","v9","v10","v11","v12","v13","v14","v15","v16","v17","v18","v19","v20","v21","v22","v23","v24","v25","v26","v27"};
static int nmc;
static double S(double b = 10) { return sym_range(NM[nmc++], -b, b); }
static Matrix_<> symM(int r, int c) { Matrix_<> m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = S(); return m; }
static Vector_<> symV(int n) { Vector_<> v(n); for (int i = 0; i < n; ++i) v[i] = S(); return v; }
HARNESS(h_dense) {
    nmc = 0; int k = sym_choice("case", 10); static const int D[10][3] = {{1,1,1},{2,3,2},{3,2,1},{1,3,2},{2,2,2},{3,3,3},{2,1,3},{3,1,1},{1,2,3},{3,2,3}}; int n = D[k][0], m = D[k][1], p = D[k][2];
    Matrix_<> a = symM(n, m), b = symM(m, p), a0(a), b0(b); int al = sym_choice("alias", 6);
    if (al < 3) {
        Matrix_<> out(sym_choice("r", 2) * 3, 2, 7.0), *dst = al == 1 ? &a : al == 2 ? &b : &out; Matrix::Multiply(a, b, dst);
        ASSERT(dst->Rows() == n && dst->Cols() == p, "a product has the rows of the left and the columns of the right factor");
        for (int i = 0; i < n; ++i) for (int j = 0; j < p; ++j) { double e = 0; for (int q = 0; q < m; ++q) e += a0(i, q) * b0(q, j); CLOSE((*dst)(i, j), e, "each entry of a product is the row-by-column sum, whatever the result aliases"); }
    } else if (al == 3) {
        Vector_<> x = symV(m), x0(x), y; bool same = sym_choice("same", 2) == 1; Vector_<>* dst = same ? &x : &y; Matrix::Multiply(a, x, dst);
        ASSERT((int)dst->size() == n, "matrix times vector has one entry per row"); for (int i = 0; i < n; ++i) { double e = 0; for (int q = 0; q < m; ++q) e += a0(i, q) * x0[q]; CLOSE((*dst)[i], e, "matrix times vector is the row sums, whatever the result aliases"); }
    } else if (al == 4) {
        Vector_<> x = symV(n), x0(x), y; bool same = sym_choice("same", 2) == 1; Vector_<>* dst = same ? &x : &y; Matrix::Multiply(x, a, dst);
        ASSERT((int)dst->size() == m, "vector times matrix has one entry per column"); for (int j = 0; j < m; ++j) { double e = 0; for (int q = 0; q < n; ++q) e += x0[q] * a0(q, j); CLOSE((*dst)[j], e, "vector times matrix is the column sums, whatever the result aliases"); }
        Vector_<> z = symV(m); double w = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) w += x0[i] * a0(i, j) * z[j]; CLOSE(Matrix::WeightedInnerProduct(x0, a, z), w, "a weighted inner product is the double sum");
    } else {
        Matrix_<> h = symM(n, n), h0(h); Matrix::AddJSquaredToUpper(a, &h);
        for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { double e = h0(i, j); for (int q = 0; q < m; ++q) e += a(i, q) * a(j, q); CLOSE(h(i, j), e, "adding J J^T to the upper half adds the row products"); }
        bool bad = n != m && !throws_([&] { Matrix_<> r; Matrix::Multiply(a, a, &r); }); ASSERT(!bad, "products of matrices that do not fit are rejected");
    }
}
static double entry(int i, int j) { return ((i * 7 + j * 5) % 4 + 1) * (((i + j) % 3) ? 0.5 : -0.5); }
HARNESS(h_tri) {
    nmc = 0; int n = 1 + sym_choice("n", 5); bool symm = sym_choice("symmetric", 2) == 1; Sparse::TriDiagonal_ t(n); int free = sym_choice("free", n); Matrix_<> A(n, n, 0.0);
    for (int i = 0; i < n; ++i) { double d = i == free ? sym_range("d", 5, 9) : 6 + i; t.Set(i, i, d); A(i, i) = d; }
    for (int i = 0; i + 1 < n; ++i) { double u = entry(i, i + 1), l = symm ? u : entry(i + 1, i) + 0.25; t.Set(i, i + 1, u); t.Set(i + 1, i, l); A(i, i + 1) = u; A(i + 1, i) = l; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CLOSE(t(i, j), A(i, j), "a tridiagonal matrix gives back the entries that were set and zero outside");
    ASSERT(t.IsSymmetric() == (symm || n == 1), "symmetry is reported as it is");
    Vector_<> x = symV(n), b, bt; t.MultiplyLeft(x, &b); t.MultiplyRight(x, &bt);
    for (int i = 0; i < n; ++i) { double e = 0, f = 0; for (int j = 0; j < n; ++j) { e += A(i, j) * x[j]; f += A(j, i) * x[j]; } CLOSE(b[i], e, "tridiagonal times vector"); CLOSE(bt[i], f, "vector times tridiagonal"); }
    std::unique_ptr<SquareMatrixDecomposition_> dec(t.Decompose()); Vector_<> y, y2; dec->MultiplyLeft(x, &y); dec->MultiplyRight(x, &y2); for (int i = 0; i < n; ++i) { CLOSE(y[i], b[i], "the decomposition multiplies like the matrix"); CLOSE(y2[i], bt[i], "the decomposition multiplies from the right like the matrix"); }
    Vector_<> z, z2(bt); dec->SolveLeft(b, &z); dec->SolveRight(z2, &z2); for (int i = 0; i < n; ++i) { CLOSE(z[i], x[i], "solving a tridiagonal system inverts the product"); CLOSE(z2[i], x[i], "solving the transposed system in place inverts the transposed product"); }
    if (n > 2) ASSERT(throws_([&] { t.Set(0, 2, 1.0); }), "writing outside the band is rejected");
}
HARNESS(h_band) {
    nmc = 0; int k = sym_choice("case", 6); static const int N[6] = {3, 4, 5, 3, 4, 5}, U[6] = {2, 2, 2, 1, 0, 2}, L[6] = {2, 2, 2, 2, 3, 1}; int n = N[k]; std::unique_ptr<Sparse::Square_> t(Sparse::NewBandDiagonal(n, U[k], L[k])); Matrix_<> A(n, n, 0.0);
    if (k < 3) { int s = sym_choice("values", 4); Matrix_<> F(n, n, 0.0); for (int i = 0; i < n; ++i) for (int j = i > 2 ? i - 2 : 0; j <= i; ++j) F(i, j) = i == j ? 1.0 + ((i + s) % 3) * 0.5 : s == 3 ? 0.0 : entry(i + s, j);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { for (int q = 0; q < n; ++q) A(i, j) += F(i, q) * F(j, q); if (i - j <= 2 && j - i <= 2) t->Set(i, j, A(i, j)); }
    } else for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (j - i <= U[k] && i - j <= L[k]) { double v = S(); t->Set(i, j, v); t->Add(i, j, 1.0); A(i, j) = v + 1.0; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CLOSE((*t)(i, j), A(i, j), "a banded matrix gives back the entries that were set and zero outside");
    Vector_<> x = symV(n), b, bt; t->MultiplyLeft(x, &b); t->MultiplyRight(x, &bt);
    for (int i = 0; i < n; ++i) { double e = 0, f = 0; for (int j = 0; j < n; ++j) { e += A(i, j) * x[j]; f += A(j, i) * x[j]; } CLOSE(b[i], e, "banded times vector"); CLOSE(bt[i], f, "vector times banded"); }
    if (k >= 3) { ASSERT(throws_([&] { t->Set(0, n - 1, 1.0); }) == (n - 1 > U[k]), "writing outside the band is rejected"); return; }
    ASSERT(t->IsSymmetric(), "a symmetric banded matrix is reported symmetric");
    std::unique_ptr<Sparse::SymmetricDecomposition_> dec(t->DecomposeSymmetric()); Vector_<> y, z, z2(b); dec->Multiply(x, &y); dec->Solve(b, &z); dec->Solve(z2, &z2);
    for (int i = 0; i < n; ++i) { CLOSE(y[i], b[i], "the banded decomposition multiplies like the matrix"); CLOSE(z[i], x[i], "solving a banded system inverts the product"); CLOSE(z2[i], x[i], "solving a banded system in place inverts the product"); }
    Vector_<> w; auto e = dec->MakeCorrelated(x.begin(), &w); ASSERT(e == x.end(), "correlating consumes one deviate per dimension"); Vector_<> u; // w = F x: check w' A^-1 w = x' x
    dec->Solve(w, &u); double q = 0, q0 = 0; for (int i = 0; i < n; ++i) { q += u[i] * w[i]; q0 += x[i] * x[i]; } CLOSE(q, q0, "correlated deviates have the matrix as covariance");
    Matrix_<> J(2, n); for (int i = 0; i < n; ++i) { J(0, i) = b[i]; J(1, i) = entry(i, 1); } SquareMatrix_<> f(1); dec->QForm(J, &f); double e00 = 0, e01 = 0; for (int i = 0; i < n; ++i) { e00 += x[i] * b[i]; e01 += x[i] * J(1, i); } CLOSE(f(0, 0), e00, "the quadratic form is J A^-1 J^T"); CLOSE(f(0, 1), e01, "the quadratic form is J A^-1 J^T off the diagonal"); CLOSE(f(1, 0), e01, "the quadratic form is symmetric");
}
HARNESS(h_chol) {
    nmc = 0; int k = sym_choice("case", 4), n = k == 3 ? 2 : 2 + k; int s = sym_choice("values", 4); Matrix_<> F(n, n, 0.0); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) F(i, j) = i == j ? 1.0 + ((i + s) % 3) * 0.5 : s == 3 ? 0.0 : entry(i + s, j);
    if (k >= 3) F(n - 1, 0) = sym_range("free", -2, 2);
    SquareMatrix_<> A(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { A(i, j) = 0; for (int q = 0; q < n; ++q) A(i, j) += F(i, q) * F(j, q); }
    Vector_<> x = symV(n), b(n); for (int i = 0; i < n; ++i) { b[i] = 0; for (int j = 0; j < n; ++j) b[i] += A(i, j) * x[j]; }
    std::unique_ptr<Sparse::SymmetricDecomposition_> dec(CholeskyDecomposition(A)); ASSERT(dec->Size() == n && dec->Rank() == n, "a decomposition has the size of its matrix");
    Vector_<> y, z, z2(b), w; dec->Multiply(x, &y); dec->Solve(b, &z); dec->SolveRight(z2, &z2); auto e = dec->MakeCorrelated(x.begin(), &w); ASSERT(e == x.end(), "correlating consumes one deviate per dimension");
    for (int i = 0; i < n; ++i) { double c = 0; for (int j = 0; j <= i; ++j) c += F(i, j) * x[j]; CLOSE(w[i], c, "correlated deviates are the lower-triangular root times the deviates"); }
    if (k >= 3) return;
    for (int i = 0; i < n; ++i) { CLOSE(y[i], b[i], "a Cholesky decomposition multiplies like its matrix"); CLOSE(z[i], x[i], "a Cholesky solve inverts the product"); CLOSE(z2[i], x[i], "a Cholesky solve in place inverts the product"); }
    Matrix_<> J(2, n); for (int i = 0; i < n; ++i) { J(0, i) = b[i]; J(1, i) = entry(i, 1); } SquareMatrix_<> f(1); dec->QForm(J, &f); double e01 = 0, e11 = 0; Vector_<> j1(n), s1; for (int i = 0; i < n; ++i) { e01 += x[i] * J(1, i); j1[i] = J(1, i); } dec->Solve(j1, &s1); for (int i = 0; i < n; ++i) e11 += s1[i] * j1[i]; CLOSE(f(1, 1), e11, "the quadratic form is J A^-1 J^T"); CLOSE(f(0, 1), e01, "the quadratic form is J A^-1 J^T off the diagonal"); CLOSE(f(1, 0), e01, "the quadratic form is symmetric");
    Vector_<Vector_<>> bs(2); bs[0] = b; bs[1] = Vector_<>(n); for (int i = 0; i < n; ++i) bs[1][i] = 2.0 * b[i]; CholeskySolve(&A, &bs); for (int i = 0; i < n; ++i) { CLOSE(bs[0][i], x[i], "a batch Cholesky solve solves each right-hand side"); CLOSE(bs[1][i], 2.0 * x[i], "a batch Cholesky solve solves each right-hand side"); }
}
HARNESS(h_misc) {
    nmc = 0; int n = 1 + sym_choice("n", 4); Vector_<> d(n); for (int i = 0; i < n; ++i) { d[i] = sym_range(NM[nmc++], 0.25, 10); } Vector_<> x = symV(n), b, c; std::unique_ptr<SymmetricMatrixDecomposition_> dd(DiagonalAsDecomposition(d)); dd->Multiply(x, &b); dd->Solve(b, &c);
    ASSERT((int)b.size() == n && (int)c.size() == n, "diagonal results have the matrix size"); for (int i = 0; i < n; ++i) { CLOSE(b[i], d[i] * x[i], "a diagonal multiply scales each entry"); CLOSE(c[i], x[i], "a diagonal solve inverts it"); }
    Vector_<> w; auto e = dd->MakeCorrelated(x.begin(), &w); ASSERT(e == x.end(), "correlating consumes one deviate per dimension"); for (int i = 0; i < n; ++i) CLOSE(w[i] * w[i], d[i] * x[i] * x[i], "diagonal deviates are scaled by the root of the variance");
    Vector_<> zv(n, 1.0); zv[n - 1] = 0.0; std::unique_ptr<SymmetricMatrixDecomposition_> dz(DiagonalAsDecomposition(zv)); ASSERT(throws_([&] { Vector_<> r; dz->Solve(x, &r); }), "dividing by a zero diagonal is rejected"); zv[n - 1] = -1.0; std::unique_ptr<SymmetricMatrixDecomposition_> dn(DiagonalAsDecomposition(zv)); ASSERT(throws_([&] { Vector_<> r; dn->MakeCorrelated(x.begin(), &r); }), "a negative variance is rejected");
    SquareMatrix_<> L(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) L(i, j) = j > i ? 0.0 : i == j ? d[i] : S(); std::unique_ptr<SquareMatrixDecomposition_> lt(LowerTriangularAsDecomposition(L)); Vector_<> p, q, p2, q2;
    lt->MultiplyLeft(x, &p); lt->MultiplyRight(x, &q);
    for (int i = 0; i < n; ++i) { double s = 0, t = 0; for (int j = 0; j < n; ++j) { s += L(i, j) * x[j]; t += L(j, i) * x[j]; } CLOSE(p[i], s, "a lower-triangular multiply includes every entry of the row"); CLOSE(q[i], t, "a transposed lower-triangular multiply includes every entry of the column"); }
    if (n < 4) { lt->SolveLeft(p, &p); lt->SolveRight(q, &q2); for (int i = 0; i < n; ++i) { CLOSE(p[i], x[i], "a lower-triangular solve in place inverts the product"); CLOSE(q2[i], x[i], "a transposed lower-triangular solve inverts the product"); } }
}
HARNESS(h_cg) {
    nmc = 0; int k = sym_choice("case", 4); static const double M[4][3] = {{2, 0.5, 3}, {4, -1, 1}, {1, 0, 1}, {5, 2, 2}}; Sparse::TriDiagonal_ t(2); t.Set(0, 0, M[k][0]); t.Set(0, 1, M[k][1]); t.Set(1, 0, M[k][1]); t.Set(1, 1, M[k][2]);
    int v = sym_choice("b", 4); double s = sym_range("s", 0.25, 4); Vector_<> b(2); static const double B[4][2] = {{1, 2}, {0, 1}, {1, 0}, {-2, 1}}; b[0] = s * B[v][0]; b[1] = s * B[v][1]; bool bi = sym_choice("bcg", 2) == 1; int start = sym_choice("start", 2); Vector_<> x(2, 0.0), r;
    if (start) { std::unique_ptr<SquareMatrixDecomposition_> d(t.Decompose()); d->SolveLeft(b, &x); }
    bool th = throws_([&] { if (bi) Sparse::BCGSolve(t, b, 1e-10, 1e-10, 4, &x); else Sparse::CGSolve(t, b, 1e-10, 1e-10, 4, &x); }); ASSERT(!th, "conjugate gradients reach the solution of a 2x2 system within the iteration limit");
    t.MultiplyLeft(x, &r); for (int i = 0; i < 2; ++i) { double g = r[i] - b[i]; ASSERT((g < 1e-6) & (g > -1e-6), "the solution of a conjugate-gradient solve satisfies the system"); }
}
