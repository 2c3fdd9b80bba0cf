// Rational-function normal form over atoms (used to canonicalise real-arithmetic terms before they go to the solver).
#pragma once
#include "expr.h"
int nfIsZero(E e);             // 1: identically zero, 0: not identically zero as a formal rational function, -1: too large
bool nfKey(E e, std::string& key, int& sign); // canonical key of e (sign=-1 when the key is that of -e)
bool nfConst(E e, mpq_class& q); // e is identically the constant q
int nfTiny(E e);
