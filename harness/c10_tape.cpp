//@ prop C10
//@ src dal/math/aad/expr.cpp dal/math/aad/tape.cpp dal/math/aad/aad.cpp
//@ bounds block lists with blocks of 2 or 3 elements and every history of up to 6 operations (append one, append two, mark, rewind to mark, rewind, clear); tapes: up to 3 simulated paths after a mark, symbolic inputs; node counts at, just below and just above one tape block
//@ run h_block split=7 budget=140 maxpaths=400000
//@ run h_tape budget=100
//@ run h_reset budget=100
#include <dal/platform/platform.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/math/operators.hpp>
#include "sym.h"
using namespace Dal; using namespace Dal::AAD;
template <size_t B> static void history(int first, int steps) {
    static const char* N[8] = {"op", "op1", "op2", "op3", "op4", "op5", "op6", "op7"};
    BlockList_<int, B> l; int* at[32]; int val[32]; int n = 0, mark = -1, tick = 1;
    for (int s = 0; s < steps; ++s) {
        int o = s == 0 ? first : sym_choice(N[s], 7);
        switch (o) {
        case 0: at[n] = l.EmplaceBack(tick); val[n++] = tick++; break;
        case 1: case 2: for (int k = 0; k < o + 1; ++k) { at[n] = l.EmplaceBack(tick); val[n++] = tick++; } break;
        case 3: l.SetMark(); mark = n; break;
        case 4: if (mark < 0 || mark > n) ASSUME(false); l.RewindToMark(); n = mark; break;
        case 5: l.Rewind(); n = 0; if (mark > 0) mark = -1; break;
        case 6: l.Clear(); n = 0; mark = -1; break;
        }
    }
    ASSERT(l.Size() == n, "the size is the number of live elements");
    int i = 0; for (auto it = l.Begin(); it != l.End(); ++it) { ASSERT(i < n && &*it == at[i] && *it == val[i], "forward iteration visits every live element in order"); ++i; if (i > n) break; }
    ASSERT(i == n, "forward iteration ends after the last element");
    auto it = l.End(); for (int j = n - 1; j >= 0; --j) { --it; ASSERT(&*it == at[j] && *it == val[j], "backward iteration visits every live element in reverse"); }
    ASSERT(it == l.Begin(), "backward iteration ends at the beginning");
    for (int j = 0; j < n; ++j) { auto f = l.Find(at[j]); ASSERT(&*f == at[j], "every live element is found"); for (int k = 0; k < j; ++k) ASSERT(at[k] != at[j], "live elements do not share storage"); }
    if (mark >= 0 && mark <= n) { auto m = l.Mark(); int c = 0; auto e = l.End(); while (m != e && c <= n) { ++m; ++c; } ASSERT(c == n - mark, "the mark keeps its place"); }
}
HARNESS(h_block) { int o = sym_choice("op", 7), b = sym_choice("block", 2); if (b == 0) history<2>(o, 6); else history<3>(o, 6); }
HARNESS(h_tape) {
    Tape_* t = new Tape_(); Number_::SetTape(*t); double u = sym_range("a", 0.5, 2), w = sym_range("b", 0.5, 2); int paths = 1 + sym_choice("paths", 3); bool redo = sym_choice("rewind", 2) == 1;
    Number_ a(u), b(w); if (redo) { Number_ junk = a * b; junk = junk + a; t->Rewind(); a.PutOnTape(); b.PutOnTape(); }
    Number_ s = a * b; t->Mark(); double ea = 0, eb = 0;
    static const char* N[3] = {"z0", "z1", "z2"}; static const char* L[3] = {"len0", "len1", "len2"};
    for (int i = 0; i < paths; ++i) { t->RewindToMark(); double z = sym_range(N[i], -1, 1); int len = sym_choice(L[i], 2); Number_ v = s * z + a; if (len) { Number_ q = v * b; v = q - v; }
        v.PropagateToMark(); double dv = len ? w - 1 : 1; ea += dv * (w * z + 1); eb += dv * u * z + (len ? (u * w * z + u) : 0); CLOSE(v.value(), len ? (u * w * z + u) * (w - 1) : u * w * z + u, "values after rewinding are those of a fresh tape"); }
    Number_::PropagateMarkToStart();
    CLOSE(a.Adjoint(), ea, "adjoints accumulated over paths are the summed derivatives (first input)"); CLOSE(b.Adjoint(), eb, "adjoints accumulated over paths are the summed derivatives (second input)");
    t->ResetAdjoints(); CLOSE(a.Adjoint(), 0, "reset clears the adjoints"); CLOSE(b.Adjoint(), 0, "reset clears the adjoints"); CLOSE(s.Adjoint(), 0, "reset clears the adjoints");
    Number_ r = a / b; r.PropagateToStart(); CLOSE(a.Adjoint(), 1 / w, "after a reset only the new result counts"); CLOSE(b.Adjoint(), -u / (w * w), "after a reset only the new result counts");
    t->Clear(); Number_ c(u), d = c * c; d.PropagateToStart(); CLOSE(c.Adjoint(), 2 * u, "a cleared tape starts afresh");
}
HARNESS(h_reset) {
    Tape_* t = new Tape_(); Number_::SetTape(*t); int n = (int)BLOCK_SIZE - 3 + sym_choice("over", 5); double u = sym_range("a", 0.5, 2); Number_ a(u); for (int i = 1; i < n - 1; ++i) Number_ x(1.0);
    Number_ r = a * 3.0; r.PropagateToStart(); CLOSE(a.Adjoint(), 3, "derivatives cross tape blocks");
    t->ResetAdjoints(); CLOSE(a.Adjoint(), 0, "reset clears the adjoints of every block"); Number_ q = a * a; q.PropagateToStart(); CLOSE(a.Adjoint(), 2 * u, "the tape keeps working past a full block");
}
