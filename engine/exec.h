#pragma once
#include "expr.h"
#include "solver.h"
#include "llvmc.h"
#include <functional>
#include <unordered_map>
struct FX { E num; int64_t den; mpq_class err; bool cr = false; };        // num/den +- err, num is a 64-bit signed BV expression
struct KQv { double d; E q; };                            // concrete double together with the exact rational it approximates
struct Agg;
enum VK : uint8_t { KU, KC, KE, KX, KQ, KA };
struct Val {
    VK k; union { uint64_t c; E e; FX* x; KQv* q; Agg* a; };
    Val() : k(KU), c(0) {} static Val C(uint64_t v) { Val r; r.k = KC; r.c = v; return r; }
    static Val Ex(E e, bool) { Val r; r.k = KE; r.e = e; return r; }
};
struct Agg { std::vector<Val> v; };
struct TypeD { int kind; unsigned bits; unsigned bytes; std::vector<std::pair<unsigned, TypeD*>> el; unsigned alloc; };
struct Func; struct Inst;
struct Edge { int pc; std::vector<std::pair<int, int>> moves; int block; };
struct Inst {
    int op; int dst = -1; TypeD* ty = nullptr; TypeD* oty = nullptr; std::vector<int> ops; int64_t aux = 0; std::vector<std::pair<int, int64_t>> gep; std::vector<unsigned> idx; std::vector<Edge> edges; Func* callee = nullptr; int calleeOp = 0; std::vector<std::pair<int, TypeD*>> byval; LLVMValueRef v = nullptr; int pred = 0; std::vector<uint64_t> cases; int blk = 0; bool cleanup = false; std::vector<std::pair<bool, Val>> clauses; std::vector<TypeD*> argTy; int fixedArgs = -1; std::vector<int> opw;
};
struct Exec; struct State;
typedef bool (*Builtin)(Exec&, State&, const Inst&, std::vector<Val>&, Val&); // returns true when it completed normally (ret set), false when it redirected control itself
struct Func { std::string name; LLVMValueRef v = nullptr; bool decl = false, decoded = false; int nregs = 0, nparams = 0; std::vector<Inst> code; std::vector<Val> consts; uint32_t obj = 0; Builtin bi = nullptr; bool overrideBi = false; bool vararg = false; uint64_t calls = 0; uint64_t forks = 0; };
struct Cell { Val v; unsigned sz; };
struct Obj { int rc = 1; uint32_t size = 0; uint8_t kind = 0; bool ro = false; bool dead = false; uint8_t* bytes = nullptr; uint8_t* mask = nullptr; std::map<uint32_t, Cell>* cells = nullptr; Func* fn = nullptr; const char* tag = nullptr; };
enum { OHeap = 1, OStack, OGlobal, OFunc };
struct Chunk { int rc = 1; Obj* o[256]; };
struct Mem { std::vector<Chunk*> ch; uint32_t n = 0; };
struct Frame { Func* f; int pc; int regBase; const Inst* call; std::vector<uint32_t> allocas; uint32_t vaObj; std::vector<std::pair<int,int>> dummy; };
struct ExcRec { uint64_t obj; uint64_t tinfo; uint64_t dtor; uint64_t adj; int handlers; bool rethrown; };
struct Thread { std::vector<Frame> fr; std::vector<Val> regs; uint64_t curExc = 0; int selector = 0; std::vector<uint64_t> caught; int uncaught = 0; int status = 0; /*0 runnable 1 blocked 2 done*/ uint64_t waitOn = 0; uint64_t retv = 0; bool woken = false; std::map<uint32_t, uint32_t> tls; int waitKind = 0; uint64_t waitMutex = 0; };
struct PathNode;
struct VClock { uint32_t c[8] = {0}; void join(const VClock& o) { for (int i = 0; i < 8; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct RCell { int8_t wt = -1; uint32_t wc = 0; uint32_t rc[8] = {0}; };
struct RaceState { std::vector<VClock> vc; std::map<uint64_t, VClock> sync; std::map<uint64_t, RCell> cells; };
struct State {
    RaceState race; int spurious = 0, streak = 0, yields = 0;
    Mem mem; std::vector<Thread> th; int cur = 0; std::vector<E> path; ModelP model; std::vector<std::pair<std::string, E>> inputs; std::map<std::string, int> nameCount; std::map<uint64_t, ExcRec> exc; uint64_t steps = 0; bool uncertain = false; int id = 0; std::vector<std::string> trace; int depth = 0; std::map<uint64_t, int> mutexOwner; int preempt = 0; uint64_t stdoutPos = 0; std::map<uint64_t, E> anno; bool noModel = false; std::unordered_map<E, uint64_t> subst; std::string errnoObj; std::map<std::string,int64_t> kv;
};
