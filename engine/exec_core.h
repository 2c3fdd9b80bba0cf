#pragma once
#include "exec.h"
#include "nf.h"
#include <deque>
#include <unordered_map>
struct PathEnd { int kind; std::string msg; }; // 0 done, 1 assume-killed, 2 error/undecided, 3 violation recorded, 4 reschedule (state re-queued)
struct AssertStat { uint64_t checked = 0, discharged = 0, violated = 0, unknown = 0, constTrue = 0; };
struct Candidate { std::string kind, msg, file; bool confirmed; std::string inputs; };
struct Exec {
    LLVMModuleRef M; LLVMTargetDataRef TD; std::unordered_map<LLVMValueRef, Func*> funcs; std::unordered_map<std::string, Func*> byName; std::unordered_map<LLVMValueRef, uint32_t> globals; std::unordered_map<LLVMTypeRef, TypeD*> types; std::map<std::string, uint32_t> globalByName;
    std::unordered_map<uint32_t, LLVMValueRef> tlsInit; std::unordered_map<uint32_t, uint32_t> tlsSize; Mem baseMem0;
    std::deque<State*> work; State* curState = nullptr; int nextState = 0; int shardI = 0, shardN = 1; int mode = 0; // 0 real, 1 ieee
    // config
    double budget = 120; uint64_t maxSteps = 30000000; unsigned tmoBranch = 15000, tmoAssert = 60000; std::string replayCmd, outPrefix, harness; int maxCand = 4; bool verbose = false; unsigned seed = 1; int maxPaths = 1000000; bool bfs = false; bool monotone = true; int maxPreempt = 2; bool raceOn = false; int maxSpurious = 0; void raceAcc(State& s, uint64_t p, unsigned n, bool wr); void acq(State& s, uint64_t m); void rel(State& s, uint64_t m);
    // stats
    uint64_t steps = 0, forks = 0, paths = 0, done = 0, killed = 0, errs = 0; std::map<std::string, AssertStat> asserts; std::map<std::string, uint64_t> reached, errors; std::vector<Candidate> cands; std::set<std::string> candMsgs; bool exhausted = true; double t0 = 0; uint64_t uncertain = 0; std::map<std::string, uint64_t> forkSites; std::map<std::string,int> spurious; std::vector<std::string> samples;
    // ---- setup
    void load(const char* file); TypeD* td(LLVMTypeRef t); void decode(Func* f); Val constVal(LLVMValueRef v); void writeConst(Obj* o, uint32_t off, LLVMValueRef v); uint64_t addrOf(LLVMValueRef g); Func* funcOf(LLVMValueRef v);
    // ---- memory
    uint32_t alloc(State& s, uint64_t size, int kind, bool zero = false, const char* tag = nullptr); const Obj* rd(State& s, uint32_t id); Obj* wr(State& s, uint32_t id); void freeObj(State& s, uint32_t id);
    const Obj* chk(State& s, uint64_t addr, uint64_t sz, uint32_t& off, const char* what, bool write = false);
    Val loadT(State& s, uint64_t addr, TypeD* t); void storeT(State& s, uint64_t addr, TypeD* t, const Val& v);
    Val loadN(State& s, uint64_t addr, unsigned n); void storeN(State& s, uint64_t addr, unsigned n, const Val& v);
    void copyMem(State& s, uint64_t d, uint64_t src, uint64_t n); void setMem(State& s, uint64_t d, const Val& byte, uint64_t n);
    Val loadSym(State& s, const Val& p, TypeD* t); void storeSym(State& s, const Val& p, TypeD* t, const Val& v);
    std::string cstr(State& s, uint64_t addr);
    // ---- state
    State* clone(State& s); void release(State* s); void addPath(State& s, E c); int decide(State& s, E c); uint64_t conc(State& s, const Val& v, int w); void assume(State& s, E c); bool feasible(State& s, E c, ModelP& m, Res& r, unsigned tmo);
    void violation(State& s, const std::string& kind, const std::string& msg, E cond); bool tryCandidate(State& s, const std::string& kind, const std::string& msg, E cond, bool& sat);
    // ---- values
    E toBV(State& s, const Val& v, int w); Val fromE(E e); E toReal(State& s, const Val& v); E toFP(State& s, const Val& v); bool isSym(const Val& v) { return v.k == KE || v.k == KX; }
    Val fpbin(State& s, int op, const Val& a, const Val& b); Val fpcmp(State& s, int pred, const Val& a, const Val& b); Val fpneg(State& s, const Val& a); Val fpabs(State& s, const Val& a); Val fpToInt(State& s, const Val& a, int w, bool sgn); Val intToFp(State& s, const Val& a, int w, bool sgn); Val fpRound(State& s, const Val& a, int how);
    Val fpUf(State& s, UfKind k, const std::string& nm, const Val& a); Val iteVal(State& s, E c, const Val& a, const Val& b, TypeD* t, bool& ok); Val binop(State& s, const Inst& I, int op, const Val& a, const Val& b, int w); Val icmp(State& s, int pred, const Val& a, const Val& b, int w);
    FX* fxOf(const Val& v); bool fxBin(State& s, int op, const Val& a, const Val& b, Val& r); int fxSignCmp(State& s);
    double cd(const Val& v); bool isConcD(const Val& v) { return v.k == KC || v.k == KQ; }
    E sharedUf(UfKind k, const std::string& nm, E arg, E arg2);
    // ---- run
    void run(const std::string& fn); void stepLoop(State& s); void call(State& s, Func* f, std::vector<Val>& args, const Inst* I); void doThrow(State& s); void retFrom(State& s, const Val& v); void takeEdge(State& s, const Edge& e); Val op(State& s, int i) { Thread& t = s.th[s.cur]; Frame& f = t.fr.back(); return i >= 0 ? t.regs[f.regBase + i] : f.f->consts[-1 - i]; }
    void setDst(State& s, const Inst& I, const Val& v) { if (I.dst >= 0) { Thread& t = s.th[s.cur]; t.regs[t.fr.back().regBase + I.dst] = v; } }
    bool typeMatch(State& s, uint64_t thrown, uint64_t want, uint64_t& adj); int typeClass(State& s, uint64_t ti); std::string where(State& s); void report(const char* file); bool schedule(State& s, bool voluntary); void yieldPoint(State& s);
    std::string inputsOf(State& s, const Model& m, bool forFile);
};
extern Exec X;
void registerBuiltins(); Builtin findBuiltin(const std::string& name, bool& over);
const uint64_t BASE = 0x80000000ull;
inline uint64_t mkAddr(uint32_t id, int64_t off = 0) { return ((uint64_t)id << 32) + BASE + off; }
[[noreturn]] inline void fail(const std::string& m) { throw PathEnd{2, m}; }
inline double bitsD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; } inline uint64_t dBits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
