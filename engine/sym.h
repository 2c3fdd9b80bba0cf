// Harness API.  In the symbolic build these are engine builtins; in the replay build engine/native.cpp implements them.
#pragma once
extern "C" {
long sym_i64(const char* name, long lo, long hi);   // symbolic integer in [lo, hi]
int sym_choice(const char* name, int n);            // symbolic integer in [0, n), explored case by case
double sym_f64(const char* name);                   // symbolic double (a real in real mode, any IEEE value in ieee mode)
void sym_assume_(bool c);
void sym_assert_(bool c, const char* msg);
void sym_assert_close(double a, double b, double tol, const char* msg);
void sym_reach(const char* msg);
long sym_concrete(long v);
void sym_note(const char* msg, double v);
int sym_is_symbolic_d(double v);
}
#define ASSUME(c) sym_assume_(c)
#define ASSERT(c, msg) sym_assert_(c, msg)
#define CLOSE(a, b, msg) sym_assert_close(a, b, 1e-9, msg)
#define HARNESS(name) extern "C" void name()
inline double sym_range(const char* n, double lo, double hi) { double v = sym_f64(n); sym_assume_(v >= lo); sym_assume_(v <= hi); return v; }
// run f; true if it threw anything
template <class F> inline bool throws_(F f) { try { f(); } catch (...) { return true; } return false; }
