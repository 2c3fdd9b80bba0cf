//@ prop C11
//@ src dal/script/parser.cpp dal/string/strings.cpp dal/time/daybasis.cpp dal/time/dateutils.cpp dal/time/date.cpp
//@ bounds every statement of up to 4 arbitrary tokens, every expression of up to 4 and condition of up to 4 tokens in a context, every DCF argument list of up to 5 tokens, from a vocabulary with every token class of the language; operator precedence: every chain of 3 operators with optional unary minus and parentheses over any reals; MAX/MIN of 2-4 arguments in any order
//@ run h_any split=4 budget=90
//@ run h_expr split=4 budget=100
//@ run h_cond split=4 budget=100
//@ run h_body split=4 budget=100
//@ run h_dcf split=5 budget=60
//@ run h_prec split=6 budget=90
//@ run h_nary split=4 budget=60
//@ run h_text budget=60
#include <dal/platform/platform.hpp>
#include <dal/script/parser.hpp>
#include <dal/script/visitor/all.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/time/date.hpp>
#include "sym.h"
using namespace Dal; using namespace Dal::Script;
// ---- tokens chosen by the solver: the text of a token is a table lookup on its (symbolic) index
enum { X, ONE, EQ, IFT, THEN, ELSE_, END_, LP, RP, PLUS, STAR, CARET, GT, NE, AND_, OR_, MAX_, LOG_, SPOT_, COMMA, SEMI, PAYS_, NV };
static const char* TXT[NV] = {"x", "1", "=", "IF", "THEN", "ELSE", "END", "(", ")", "+", "*", "^", ">", "!=", "AND", "OR", "MAX", "LOG", "SPOT", ",", ";", "PAYS"};
static unsigned char LEN[NV], CH[5][NV]; static const char* NM[8] = {"t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7"};
static int TK[16]; static int NT; static Vector_<String_> TV;
static void table() { for (int i = 0; i < NV; ++i) { int n = 0; while (TXT[i][n]) { CH[n][i] = TXT[i][n]; ++n; } LEN[i] = n; for (; n < 5; ++n) CH[n][i] = 0; } TV.clear(); TV.reserve(16); NT = 0; }
static void push(int t) { TK[NT++] = t; TV.push_back(String_(TXT[t])); }
static void pushSym(int i, const unsigned char* voc, int n) {
    static unsigned char map[8][NV]; for (int k = 0; k < n; ++k) map[i][k] = voc[k];
    int t = map[i][sym_i64(NM[i], 0, n - 1)]; TK[NT++] = t; TV.push_back(String_("ABCD"));
    String_& s = TV.back(); char* p = &s[0]; for (int j = 0; j < 5; ++j) p[j] = (char)CH[j][t]; *(size_t*)((char*)&s + 8) = LEN[t];
}
// ---- reference recogniser of the language (recursive descent over token kinds)
static int P; static bool OKP; static int tk() { return P < NT ? TK[P] : -1; }
static void rexpr(); static void rcond();
static void rprim() {
    int t = tk(); if (t == PLUS) { ++P; rprim(); return; }
    if (t == LP) { ++P; rexpr(); if (OKP) { if (tk() == RP) ++P; else OKP = false; } return; }
    if (t == X || t == ONE) { ++P; return; }
    if (t == SPOT_ || t == LOG_ || t == MAX_) {
        ++P; if (tk() != LP) { OKP = false; return; } ++P; int n = 0;
        while (OKP && tk() != RP) { rexpr(); if (!OKP) return; ++n; if (tk() == COMMA) ++P; else if (tk() != RP) OKP = false; }
        if (!OKP) return; ++P; if (t == SPOT_ ? n != 0 : t == LOG_ ? n != 1 : n < 2) OKP = false; return;
    }
    OKP = false;
}
static void rexpr() { rprim(); while (OKP && (tk() == PLUS || tk() == STAR || tk() == CARET)) { ++P; rprim(); } }
static void relem() {
    rexpr(); if (!OKP) return; int t = tk(); if (t != EQ && t != GT && t != NE) { OKP = false; return; } ++P; rexpr();
    while (OKP && tk() == SEMI) { ++P; if (tk() == ONE) ++P; else OKP = false; }
}
static void rcprim() { if (tk() == LP) { ++P; rcond(); if (OKP) { if (tk() == RP) ++P; else OKP = false; } } else relem(); }
static void rcond() { rcprim(); while (OKP && (tk() == AND_ || tk() == OR_)) { ++P; rcprim(); } }
static void rstat() {
    if (tk() == IFT) {
        ++P; rcond(); if (!OKP) return; if (tk() != THEN) { OKP = false; return; } ++P;
        while (OKP && tk() != ELSE_ && tk() != END_) rstat();
        if (OKP && tk() == ELSE_) { ++P; while (OKP && tk() != END_) rstat(); }
        if (OKP) ++P; return;
    }
    if (tk() != X) { OKP = false; return; } ++P; if (tk() != EQ && tk() != PAYS_) { OKP = false; return; } ++P; rexpr();
}
static void check() {
    bool thrown = false; size_t n = 0;
    try { Parser_ p; Vector_<String_>::const_iterator it = TV.begin(); while (it != TV.end()) { auto s = p.ParseStatement(it, TV.end()); ++n; } } catch (const std::exception&) { thrown = true; }
    P = 0; OKP = true; while (OKP && P < NT) rstat();
    ASSERT(OKP || thrown, "a malformed script is rejected");
    ASSERT(!OKP || !thrown, "a well-formed script is accepted");
}
static const unsigned char ALL[] = {X, ONE, EQ, IFT, THEN, ELSE_, END_, LP, RP, PLUS, STAR, CARET, GT, NE, AND_, OR_, MAX_, LOG_, SPOT_, COMMA, SEMI, PAYS_};
static const unsigned char EX[] = {X, ONE, LP, RP, PLUS, CARET, MAX_, LOG_, SPOT_, COMMA, EQ};
static const unsigned char CO[] = {X, ONE, EQ, GT, AND_, OR_, LP, RP, SEMI, THEN, PLUS, END_, SPOT_};
static const unsigned char BO[] = {X, ONE, EQ, ELSE_, END_, IFT, PAYS_, THEN};
HARNESS(h_any) { int n = 1 + sym_choice("len", 4); table(); for (int i = 0; i < n; ++i) pushSym(i, ALL, sizeof ALL); check(); }
HARNESS(h_expr) { int n = 1 + sym_choice("len", 5); table(); push(X); push(EQ); for (int i = 0; i < n; ++i) pushSym(i, EX, sizeof EX); check(); }
HARNESS(h_cond) { int n = 1 + sym_choice("len", 5), k = sym_choice("ctx", 2); table(); push(IFT); if (k) push(LP); push(X); push(GT); push(ONE); for (int i = 0; i < n; ++i) pushSym(i, CO, sizeof CO); if (k) { push(THEN); push(END_); } check(); }
HARNESS(h_body) { int n = 1 + sym_choice("len", 5); table(); push(IFT); push(X); push(GT); push(ONE); push(THEN); for (int i = 0; i < n; ++i) pushSym(i, BO, sizeof BO); check(); }
// DCF has a raw argument list: basis, start and end are texts between commas
HARNESS(h_dcf) {
    static const char* V[] = {"(", ")", ",", "ACT365F", "2023-04-23", "2024-04-23"}; int n = 1 + sym_choice("len", 5); Vector_<String_> t; t.push_back(String_("x")); t.push_back(String_("=")); t.push_back(String_("DCF"));
    int k[8]; for (int i = 0; i < n; ++i) { k[i] = sym_choice(NM[i], 6); t.push_back(String_(V[k[i]])); }
    if (sym_choice("full", 2)) { t.clear(); for (const char* s : {"x", "=", "DCF", "(", "ACT365F", ",", "2023-04-23", ",", "2024-04-23"}) t.push_back(String_(s)); for (int i = 0; i < n && i < 2; ++i) t.push_back(String_(V[k[i]])); if (n > 2) return; }
    try { Parser_ p; Vector_<String_>::const_iterator it = t.begin(); auto s = p.ParseStatement(it, t.end());
        const NodeConst_* c = dynamic_cast<const NodeConst_*>(s->arguments_[1].get()); ASSERT(c != nullptr, "DCF gives a constant"); 
    } catch (const std::exception&) {}
}
static double run(const char* text, const std::map<String_, double>& cs) {
    Parser_ p(cs); Event_ e = p.Parse(String_(text)); VarIndexer_ vi; for (auto& s : e) s->Accept(vi);
    auto names = vi.VarNames(); Evaluator_<double> ev(Vector_<>(names.size(), 0.0), vi.ConstVarValues()); ev.Init(); for (auto& s : e) s->Accept(ev);
    for (int i = 0; i < (int)names.size(); ++i) if (names[i] == "x") return ev.VarVals()[i]; return 0;
}
// precedence: unary sign, then ^, then * and /, then + and -, all left-associative
static double bin(int o, double a, double b) { return o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : o == 3 ? a / b : pow(a, b); }
static int lvl(int o) { return o < 2 ? 0 : o < 4 ? 1 : 2; }
HARNESS(h_prec) {
    static const char* OP = "+-*/^"; static const char* VN[4] = {"A", "B", "C", "D"};
    int shape = sym_choice("shape", 6); int o[3]; double v[4]; o[0] = sym_choice("o0", 5); o[1] = sym_choice("o1", 5); o[2] = shape < 3 ? sym_choice("o2", 5) : 0; int n = shape < 3 ? 4 : 3;
    std::map<String_, double> cs; static const char* RN[4] = {"a", "b", "c", "d"};
    for (int i = 0; i < n; ++i) { v[i] = sym_range(RN[i], 0.5, 2); cs[String_(VN[i])] = v[i]; }
    int neg = shape == 1 ? sym_choice("neg", n) : -1; int pl = -1, pr = -1; if (shape == 2) { pl = sym_choice("open", 3); pr = pl + 1 + (pl < 2 ? sym_choice("close", 3 - pl) : 0); } if (shape == 4) { pl = 1; pr = 2; } if (shape == 5) { pl = 0; pr = 1; neg = 0; }
    // powers only of bases that cannot be negative
    bool minus = false, pw = false; for (int i = 0; i < n - 1; ++i) { minus = minus || o[i] == 1; pw = pw || o[i] == 4; }
    if (pw && (shape == 5 || (pl >= 0 && minus))) return;
    for (int i = 0; i < n - 1; ++i) if (o[i] == 4 && neg >= 0 && i + 1 != neg) { int b = i; while (b > 0 && o[b - 1] == 4) --b; if (b == neg || i >= neg) return; }
    char txt[64]; int q = 0; for (const char* s = "x="; *s; ++s) txt[q++] = *s;
    for (int i = 0; i < n; ++i) { if (i) txt[q++] = OP[o[i - 1]]; if (i == neg && i == pl && shape == 5) txt[q++] = '-'; if (i == pl) txt[q++] = '('; if (i == neg && shape != 5) txt[q++] = '-'; txt[q++] = VN[i][0]; if (i == pr) txt[q++] = ')'; } txt[q] = 0;
    // shunting-yard reference
    double st[16]; int ops[16], ns = 0, no = 0; auto red = [&] { int k = ops[--no]; st[ns - 2] = bin(k, st[ns - 2], st[ns - 1]); --ns; };
    bool negp = false;
    for (int i = 0; i < n; ++i) {
        if (i) { while (no && ops[no - 1] >= 0 && lvl(ops[no - 1]) >= lvl(o[i - 1])) red(); ops[no++] = o[i - 1]; }
        if (i == pl) { if (shape == 5) negp = true; ops[no++] = -1; }
        double w = v[i]; if (i == neg && shape != 5) w = -w; st[ns++] = w;
        if (i == pr) { while (ops[no - 1] != -1) red(); --no; if (negp) st[ns - 1] = -st[ns - 1]; }
    }
    while (no) red();
    double r = run(txt, cs);
    CLOSE(r, st[0], "unary signs, ^, * and /, + and - bind in this order, left to right");
}
HARNESS(h_nary) {
    int k = sym_choice("k", 4); bool mx = k % 2; int n = 2 + sym_choice("n", 3); double a = sym_range("a", -2, 2), b = sym_range("b", -2, 2), c = sym_range("c", -2, 2), d = sym_range("d", -2, 2); if (k > 1) { double t = a; a = d; d = t; }
    std::map<String_, double> cs; cs[String_("A")] = a; cs[String_("B")] = b; cs[String_("C")] = c; cs[String_("D")] = d;
    double v[4] = {a, b, c, d}, e = a; for (int i = 1; i < n; ++i) if (mx ? v[i] > e : v[i] < e) e = v[i];
    static const char* T[2][3] = {{"x = MIN(A,B)", "x = min(A, B, C)", "x = MIN(A,B,C,D)"}, {"x = MAX(A,B)", "x = max(A, B, C)", "x = MAX(A,B,C,D)"}};
    ASSERT(run(T[mx][n - 2], cs) == e, "MAX and MIN take every argument into account");
}
static bool rejects(const char* t) { std::map<String_, double> cs; cs[String_("K")] = 100.0; return throws_([&] { Parser_ p(cs); p.Parse(String_(t)); }); }
HARNESS(h_text) {
    static const char* BAD[] = {"x = (1 2)", "x = (1) )", "K = 3", "K pays 3", "if x > 1 then K = 3 end", "x = ^", "^ = 1", "x = 1 + ^", "if (x > 1 2) then y = 1 end", "x = SPOT", "x = LOG", "x = MAX(1)", "x = MAX(1,2", "x = 1,2", "x", "x =", "= 1", "if x > 1", "if x > 1 then", "if x > 1 then x = 1", "if x > 1 then x = 1 else", "if x then y = 1 end", "if x > 1 : then y = 1 end", "if x > 1 : y then y = 1 end", "x = 1.2.3", "x = DCF", "x = DCF(", "x = DCF()", "x = DCF(ACT365F)", "x = DCF(ACT365F,", "x = DCF(ACT365F,2023-01-01)", "x = DCF(FOO,2023-01-01,2024-01-01)", "end", "else", "then = 2", "MAX = 2", "x = if", "2x = 3"};
    int i = sym_choice("i", (int)(sizeof BAD / sizeof *BAD)); ASSERT(rejects(BAD[i]), "malformed scripts are rejected");
    static const char* GOOD[] = {"x = (1)", "x = (1 + 2) * 3", "if (x > 1 and x < 2) or x = 3:0.1 then y = 1 else y = 2 z = 3 end", "x = DCF(ACT365F, 2023-04-23, 2024-04-23)", "x = max(1, 2, 3)", "IF x != 1 THEN END", "x = spot() y pays 1", "_a = 1", "x = K", "x = -+-1", "x = 2 ^ -1"};
    int j = sym_choice("j", (int)(sizeof GOOD / sizeof *GOOD)); if (i == 0) ASSERT(!rejects(GOOD[j]), "well-formed scripts are accepted");
    if (i == 0 && j == 0) { std::map<String_, double> no; ASSERT(run("x = -2 ^ 2", no) == 4 && run("x = 2 ^ 3 ^ 2", no) == 64 && run("x = 2 ^ -1", no) == 0.5, "signs bind tighter than ^, which groups to the left");
         double d = run("x = DCF(ACT365F, 2023-04-23, 2024-04-23)", std::map<String_, double>()); CLOSE(d, DayBasis_(String_("ACT365F"))(Date_(2023, 4, 23), Date_(2024, 4, 23), nullptr), "DCF is the day-count fraction of its dates"); }
}
