// Replay implementation of the harness API: inputs come from a file with one "name value" per line.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <string>
#include <unistd.h>
static std::map<std::string, std::string> in; static std::map<std::string, int> cnt;
static std::string uniq(const char* n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
extern "C" {
long sym_i64(const char* n, long lo, long hi) { auto it = in.find(uniq(n)); long v = it == in.end() ? lo : strtol(it->second.c_str(), 0, 10); if (v < lo || v > hi) { fprintf(stderr, "input %s out of range\n", n); _exit(77); } return v; }
int sym_choice(const char* n, int k) { return (int)sym_i64(n, 0, k - 1); }
double sym_f64(const char* n) { auto it = in.find(uniq(n)); return it == in.end() ? 0.0 : strtod(it->second.c_str(), 0); }
void sym_assume_(bool c) { if (!c) { fprintf(stderr, "assumption not met\n"); _exit(77); } }
void sym_assert_(bool c, const char* m) { if (!c) { fprintf(stderr, "ASSERTION FAILED: %s\n", m); _exit(66); } }
void sym_assert_close(double a, double b, double tol, const char* m) { double t = tol < 1e-7 ? 1e-7 : tol; bool ok = a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b)); if (!ok) { fprintf(stderr, "ASSERTION FAILED: %s (%.17g vs %.17g)\n", m, a, b); _exit(66); } }
void sym_reach(const char*) {} long sym_concrete(long v) { return v; } void sym_note(const char* m, double v) { if (getenv("SYM_NOTES")) fprintf(stderr, "note %s = %.17g\n", m, v); } int sym_is_symbolic_d(double) { return 0; }
}
int main(int argc, char** argv) {
    if (argc == 2 && !strcmp(argv[1], "--selftest")) return 0; if (argc < 3) return 99; FILE* f = fopen(argv[2], "r"); if (!f) return 99; char n[512], v[512]; while (fscanf(f, "%511s %511s", n, v) == 2) in[n] = v; fclose(f);
    void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 99; }
    try { h(); } catch (std::exception& e) { fprintf(stderr, "UNCAUGHT EXCEPTION: %s\n", e.what()); _exit(65); } catch (...) { fprintf(stderr, "UNCAUGHT EXCEPTION\n"); _exit(65); }
    _exit(0);
}
