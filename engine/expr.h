// Hash-consed expression DAG: bit-vectors (width 1..64; booleans are width 1), reals (exact rationals) and IEEE doubles.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <gmpxx.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
typedef __int128 i128;
enum class Op : uint8_t {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle,
    RConst, RVar, RAdd, RMul, RDiv, RIte, REq, RLt, RLe, RFromS,
    FConst, FVar, FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FSqrt, FRound, FIte, FEq, FLt, FLe, FIsNan, FIsInf, FFromS, FFromU, FToS, FToBits, FFromBits
};
enum Sort : uint8_t { SBV, SReal, SFP };
enum UfKind : uint8_t { UfNone, UfSqrt, UfExp, UfLog, UfErfc, UfSin, UfCos, UfOther };
struct Expr;
typedef const Expr* E;
typedef std::vector<uint64_t> Bits;
struct VarInfo {
    std::string name; int id; UfKind uf = UfNone; E ufArg = nullptr; E ufArg2 = nullptr; std::string ufName; std::vector<E> axioms; bool harness = false; uint64_t bound = ~0ull; int kind = 0; int64_t offset = 0;
};
struct Expr {
    Op op; Sort sort; uint8_t w; uint32_t id; uint64_t aux; E a, b, c; mpq_class* q; uint64_t umin, umax; int64_t smin, smax; const Bits* sup; VarInfo* var;
    mutable void* z3b; mutable void* z3v; mutable uint64_t stamp; mutable uint64_t ev; mutable mpq_class* evq; mutable int8_t edef;
    bool isConst() const { return op == Op::Const || op == Op::RConst || op == Op::FConst; }
};
inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
inline int64_t sx(uint64_t v, int w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

E mkC(int w, uint64_t v);
E mkVar(int w, const std::string& name, VarInfo** vi = nullptr);
E mkBin(Op op, E a, E b);
E mkNot(E a);   // width 1
E mkExtract(E a, int lo, int w);
E mkZExt(E a, int w);
E mkSExt(E a, int w);
E mkConcat(E hi, E lo);
E mkIte(E c, E a, E b); // any sort
inline E mkAnd1(E a, E b) { return mkBin(Op::And, a, b); }
inline E mkOr1(E a, E b) { return mkBin(Op::Or, a, b); }
inline E mkEq(E a, E b) { return mkBin(Op::Eq, a, b); }
inline E mkTrue() { return mkC(1, 1); }
inline E mkFalse() { return mkC(1, 0); }
E mkR(const mpq_class& q);
E mkRVar(const std::string& name, VarInfo** vi = nullptr);
E mkRAdd(E a, E b); E mkRSub(E a, E b); E mkRMul(E a, E b); E mkRDiv(E a, E b); E mkRNeg(E a);
E mkRCmp(Op op, E a, E b);
E mkRFromS(E a);
E mkF(double d); E mkFVar(const std::string& name, VarInfo** vi = nullptr);
E mkFOp(Op op, int w, Sort s, E a, E b = nullptr, uint64_t aux = 0);
const std::vector<VarInfo*>& allVars();
VarInfo* varById(int id);
E varExpr(int id);
std::string show(E e, int depth = 6);
uint64_t exprCount();
