#pragma once
#include "expr.h"
#include <functional>
struct MVal { uint64_t bv = 0; mpq_class q; bool inexact = false; };
struct Model { std::map<int, MVal> v; uint64_t id; static uint64_t next; Model() : id(++next) {} Model(const Model& o) : v(o.v), id(++next) {} };
typedef std::shared_ptr<const Model> ModelP;
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0; double time = 0; double maxTime = 0; };
extern SolverStats g_ss;
void solverInit(unsigned seed);
// definite==true: value is exact under the model. BV -> bv, Real -> *q
bool evalUnder(E e, const Model& m, uint64_t& bv, mpq_class* q);
Res solve(const std::vector<E>& path, E extra, const ModelP& base, ModelP& out, unsigned timeoutMs, bool full = false);
double nowS();
extern std::string g_dumpDir;
