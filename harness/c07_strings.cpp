//@ prop C07
//@ src dal/string/strings.cpp
//@ bounds equality: two strings of 1-3 ASCII characters; order: three strings of 1-2 arbitrary bytes; find: up to 4 in 1-2 characters; Split: up to 4 arbitrary bytes and any ASCII separator; Condensed/Equivalent: up to 4 arbitrary bytes; NextName: names of up to 4 printable characters; integers: all up to 14999, windows of 1000 around each larger power of ten and at the 32-bit extremes, both signs
//@ run h_eq split=9 budget=60
//@ run h_order split=8 budget=100
//@ run h_find split=6 budget=60
//@ run h_split split=8 budget=100
//@ run h_condense split=8 budget=100
//@ run h_int split=12 budget=60
//@ run h_next split=8 budget=60
//@ run h_join budget=60
#include <dal/platform/platform.hpp>
#include <dal/string/strings.hpp>
#include <dal/math/vectors.hpp>
#include "sym.h"
using namespace Dal;
static char SB[4][8];
static String_ sstr(int slot, const char* nm, int n, int lo = 1, int hi = 255) {
    static const char* N[4][8] = {{"a0", "a1", "a2", "a3", "a4"}, {"b0", "b1", "b2", "b3", "b4"}, {"c0", "c1", "c2", "c3", "c4"}, {"d0", "d1", "d2", "d3", "d4"}};
    for (int i = 0; i < n; ++i) SB[slot][i] = (char)sym_i64(N[slot][i], lo, hi);
    SB[slot][n] = 0; return String_(SB[slot], SB[slot] + n);
}
static int up(char c) { int v = (unsigned char)c; return v >= 'a' && v <= 'z' ? v - 32 : v; }
HARNESS(h_eq) {
    int k = sym_choice("lens", 9), n = k / 3 + 1, m = k % 3 + 1; String_ a = sstr(0, "a", n, 1, 127), b = sstr(1, "b", m, 1, 127);
    bool e = n == m; if (n == m) for (int i = 0; i < n; ++i) e = e & (up(SB[0][i]) == up(SB[1][i]));
    ASSERT((a == b) == e, "strings are equal exactly when they differ at most in ASCII letter case");
    ASSERT((a == SB[1]) == e, "comparison with a C string is case-insensitive equality");
}
HARNESS(h_order) {
    int k = sym_choice("lens", 8); String_ a = sstr(0, "a", 1 + (k & 1)), b = sstr(1, "b", 1 + (k >> 1 & 1)), c = sstr(2, "c", 1 + (k >> 2 & 1));
    bool ab = a < b, ba = b < a, bc = b < c, ac = a < c, e = a == b;
    ASSERT((ab ? 1 : 0) + (ba ? 1 : 0) + (e ? 1 : 0) == 1, "exactly one of <, >, == holds");
    ASSERT(!(ab && bc) || ac, "the order is transitive");
    ASSERT(!(e && bc) || ac, "equal strings order alike");
}
HARNESS(h_find) {
    int k = sym_choice("len", 6), n = k % 3 + 2, m = k / 3 + 1; String_ a = sstr(0, "a", n, 1, 127), b = sstr(1, "b", m, 1, 127);
    size_t e = String_::npos;
    for (int i = n - m; i >= 0; --i) { bool h = true; for (int j = 0; j < m; ++j) h = h && up(SB[0][i + j]) == up(SB[1][j]); if (h) e = i; }
    ASSERT(a.find(b) == e, "find gives the first case-insensitive occurrence");
    size_t f = String_::npos; for (int i = n - 1; i >= 0; --i) if (up(SB[0][i]) == up(SB[1][0])) f = i;
    ASSERT(a.find(SB[1][0]) == f, "find of a character gives its first case-insensitive occurrence");
}
HARNESS(h_split) {
    int k = sym_choice("case", 8), n = k / 2 + 1; bool keep = k % 2; String_ a = sstr(0, "a", n); char sep = (char)sym_i64("sep", 1, 127);
    Vector_<String_> s = String::Split(a, sep, keep);
    // reference: pieces between separators; a final empty piece is not reported
    int np = 0, st[8], ln[8]; st[0] = 0;
    int b = 0; for (int i = 0; i <= n; ++i) if (i == n || SB[0][i] == sep) { if (!(i == n && b == n) && (keep || i > b)) { st[np] = b; ln[np] = i - b; ++np; } b = i + 1; }
    ASSERT((int)s.size() == np, "Split reports each piece, and empty ones only on request");
    for (int i = 0; i < np; ++i) { ASSERT((int)s[i].size() == ln[i], "pieces have the length between their separators"); for (int j = 0; j < ln[i]; ++j) ASSERT(s[i][j] == SB[0][st[i] + j], "pieces are the text between separators"); }
}
HARNESS(h_condense) {
    int k = sym_choice("case", 8), n = k % 4 + 1; String_ a = sstr(0, "a", n, 1, k < 4 ? 127 : 255);
    String_ c = String::Condensed(a); char e[8]; int m = 0; bool ascii = true;
    for (int i = 0; i < n; ++i) { char x = SB[0][i]; if (x != ' ' && x != '\t' && x != '_') e[m++] = (char)up(x); if (x < 0) ascii = false; } e[m] = 0;
    ASSERT(String::Equivalent(a, e), "a name is equivalent to its condensed form");
    ASSERT((int)c.size() == m, "condensing drops exactly blanks, tabs and underscores");
    for (int i = 0; i < m; ++i) ASSERT(c[i] == e[i], "condensing upper-cases what it keeps");
    ASSERT(String::Condensed(c).compare(c) == 0, "condensing is idempotent");
    if (k < 4 && n >= 2 && n < 4) { int q = n - 1; SB[3][0] = 0; String_ d = sstr(1, "b", q, 1, 127); ASSERT(String::Equivalent(a, String::Condensed(d).c_str()) == (String::Condensed(a) == String::Condensed(d)), "Equivalent compares condensed forms"); }
    ASSERT(!String::Equivalent(a, (String_(e) + 'X').c_str()), "a longer name is not equivalent");
    if (m > 0) { e[m - 1] = 0; ASSERT(!String::Equivalent(a, e), "a shorter name is not equivalent"); }
}
HARNESS(h_int) {
    static const long B[12] = {0, 10, 100, 1000, 10000, 95000, 99500, 999500, 9999500, 123456000, 999999500, 2147482649L};
    static const long W[12] = {10, 90, 900, 9000, 5000, 4500, 1000, 1000, 1000, 1000, 1000, 1000};
    int k = sym_choice("range", 12); bool neg = sym_choice("neg", 2) == 1;
    long o = sym_i64("v", 0, W[k] - 1); int v = (int)(neg ? -B[k] - o - (k == 11 ? 1 : 0) : B[k] + o - (k == 11 ? 1 : 0));
    String_ s = String::FromInt(v); ASSERT(String::ToInt(s) == v, "integers survive conversion to text and back");
}
HARNESS(h_next) {
    int n = 1 + sym_choice("len", 4); int z = sym_choice("nines", 2); String_ a = sstr(0, "a", n, 32, 126);
    // count trailing nines; the digits before them carry
    int q = n; while (q > 0 && SB[0][q - 1] == '9') --q;
    String_ r = String::NextName(a); if (z) r = String::NextName(String::NextName(a));
    ASSERT(!(r == a), "the next name differs");
    if (!z) {
        bool num = q > 0 && SB[0][q - 1] >= '0' && SB[0][q - 1] <= '8';
        ASSERT((int)r.size() == (num ? n : n + 1), "the next name grows only when the counter overflows");
        for (int i = 0; i < q - (num ? 1 : 0); ++i) ASSERT(r[i] == SB[0][i], "the stem is kept");
        if (num) ASSERT(r[q - 1] == SB[0][q - 1] + 1, "the counter goes up by one");
        for (int i = (int)r.size() - (n - q); i < (int)r.size(); ++i) ASSERT(r[i] == '0', "carried digits become zero");
    }
}
HARNESS(h_join) {
    Vector_<String_> v; int n = sym_choice("n", 4); bool skip = sym_choice("skip", 2) == 1; String_ e; bool first = true;
    for (int i = 0; i < n; ++i) { static const char* N[4] = {"e0", "e1", "e2"}; int t = sym_choice(N[i], 3); String_ x(t == 0 ? "" : t == 1 ? "p" : "qq"); v.push_back(x); 
        if (skip) { if (t) { if (!e.empty()) e += ','; e += x; } } else { if (!first) e += ','; e += x; } first = false; }
    ASSERT(String::Accumulate(v, String_(","), skip) == e, "joining puts one separator between (non-skipped) items");
    bool t = sym_choice("b", 2) == 1; ASSERT(String::FromBool(t) == (t ? "true" : "false"), "booleans print as true/false");
}
