#include "exec_core.h"
#include <algorithm>
TypeD* Exec::td(LLVMTypeRef t) {
    auto it = types.find(t); if (it != types.end()) return it->second; TypeD* d = new TypeD; types[t] = d; d->kind = LLVMGetTypeKind(t); d->bits = 0; d->bytes = 0; d->alloc = 0;
    switch (d->kind) {
    case TInt: d->bits = LLVMGetIntTypeWidth(t); d->bytes = (d->bits + 7) / 8; d->alloc = (unsigned)LLVMABISizeOfType(TD, t); break;
    case TFloat: d->bits = 32; d->bytes = d->alloc = 4; break; case TDouble: d->bits = 64; d->bytes = d->alloc = 8; break; case TPtr: d->bits = 64; d->bytes = d->alloc = 8; break; case TX86FP80: d->bits = 80; d->bytes = 10; d->alloc = 16; break;
    case TStruct: { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; ++i) d->el.push_back({(unsigned)LLVMOffsetOfElement(TD, t, i), td(LLVMStructGetTypeAtIndex(t, i))}); d->bytes = d->alloc = (unsigned)LLVMABISizeOfType(TD, t); break; }
    case TArray: { uint64_t n = LLVMGetArrayLength2(t); TypeD* e = td(LLVMGetElementType(t)); if (n <= 4096) for (unsigned i = 0; i < n; ++i) d->el.push_back({i * e->alloc, e}); d->bytes = d->alloc = (unsigned)(n * e->alloc); break; }
    case TVector: { unsigned n = LLVMGetVectorSize(t); TypeD* e = td(LLVMGetElementType(t)); for (unsigned i = 0; i < n; ++i) d->el.push_back({i * e->bytes, e}); d->bytes = n * e->bytes; d->alloc = (unsigned)LLVMABISizeOfType(TD, t); break; }
    default: break;
    }
    return d;
}
static std::string nameOf(LLVMValueRef v) { size_t n; const char* c = LLVMGetValueName2(v, &n); return std::string(c, n); }
Func* Exec::funcOf(LLVMValueRef v) { auto it = funcs.find(v); return it == funcs.end() ? nullptr : it->second; }
uint64_t Exec::addrOf(LLVMValueRef g) {
    int k = LLVMGetValueKind(g); if (k == VKAlias) { Val v = constVal(LLVMAliasGetAliasee(g)); return v.c; } if (k == VKFunc) { if (LLVMIsDeclaration(g) && nameOf(g).rfind("_ZTH", 0) == 0) return 0; return mkAddr(funcs[g]->obj); } auto it = globals.find(g); if (it == globals.end()) { fprintf(stderr, "unknown global %s\n", nameOf(g).c_str()); abort(); } return mkAddr(it->second);
}
Val Exec::constVal(LLVMValueRef v) {
    int k = LLVMGetValueKind(v); LLVMTypeRef ty = LLVMTypeOf(v); TypeD* t = td(ty);
    switch (k) {
    case VKInt: if (t->bits > 64) { return Val::C(LLVMConstIntGetZExtValue(v)); } return Val::C(LLVMConstIntGetZExtValue(v));
    case VKFP: { LLVMBool li; double d = LLVMConstRealGetDouble(v, &li); if (t->kind == TFloat) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return Val::C(u); } return Val::C(dBits(d)); }
    case VKNull: return Val::C(0);
    case VKUndef: case VKPoison: if (t->el.size()) { Agg* a = new Agg; a->v.resize(t->el.size()); Val r; r.k = KA; r.a = a; return r; } return Val();
    case VKFunc: case VKGlobal: case VKAlias: return Val::C(addrOf(v));
    case VKAggZero: { Agg* a = new Agg; for (auto& e : t->el) { if (e.second->el.size()) { Agg* b = new Agg; for (size_t i = 0; i < e.second->el.size(); ++i) b->v.push_back(Val::C(0)); Val x; x.k = KA; x.a = b; a->v.push_back(x); } else a->v.push_back(Val::C(0)); } Val r; r.k = KA; r.a = a; return r; }
    case VKConstStruct: case VKConstArray: case VKConstVector: case VKDataArray: case VKDataVector: { Agg* a = new Agg; for (unsigned i = 0; i < t->el.size(); ++i) a->v.push_back(constVal(LLVMGetAggregateElement(v, i))); Val r; r.k = KA; r.a = a; return r; }
    case VKConstExpr: {
        int op = LLVMGetConstOpcode(v);
        switch (op) {
        case OpGEP: { LLVMTypeRef cur = LLVMGetGEPSourceElementType(v); int64_t off = 0; int n = LLVMGetNumOperands(v); Val b = constVal(LLVMGetOperand(v, 0));
            for (int i = 1; i < n; ++i) { Val ix = constVal(LLVMGetOperand(v, i)); int64_t x = sx(ix.c, td(LLVMTypeOf(LLVMGetOperand(v, i)))->bits); if (i == 1) off += x * (int64_t)td(cur)->alloc; else if (LLVMGetTypeKind(cur) == TStruct) { off += (int64_t)LLVMOffsetOfElement(TD, cur, (unsigned)x); cur = LLVMStructGetTypeAtIndex(cur, (unsigned)x); } else { cur = LLVMGetElementType(cur); off += x * (int64_t)td(cur)->alloc; } }
            return Val::C(b.c + off); }
        case OpBitCast: case OpPtrToInt: case OpIntToPtr: case OpZExt: return constVal(LLVMGetOperand(v, 0));
        case OpTrunc: return Val::C(constVal(LLVMGetOperand(v, 0)).c & maskw(t->bits));
        case OpAdd: return Val::C((constVal(LLVMGetOperand(v, 0)).c + constVal(LLVMGetOperand(v, 1)).c) & maskw(t->bits));
        case OpSub: return Val::C((constVal(LLVMGetOperand(v, 0)).c - constVal(LLVMGetOperand(v, 1)).c) & maskw(t->bits));
        case OpAnd: return Val::C(constVal(LLVMGetOperand(v, 0)).c & constVal(LLVMGetOperand(v, 1)).c);
        case OpICmp: { uint64_t a = constVal(LLVMGetOperand(v, 0)).c, b = constVal(LLVMGetOperand(v, 1)).c; int p = LLVMGetICmpPredicate(v); bool r = p == 32 ? a == b : p == 33 ? a != b : p == 34 ? a > b : p == 35 ? a >= b : p == 36 ? a < b : p == 37 ? a <= b : p == 38 ? (int64_t)a > (int64_t)b : p == 39 ? (int64_t)a >= (int64_t)b : p == 40 ? (int64_t)a < (int64_t)b : (int64_t)a <= (int64_t)b; return Val::C(r); }
        case OpSelect: return constVal(LLVMGetOperand(v, 0)).c ? constVal(LLVMGetOperand(v, 1)) : constVal(LLVMGetOperand(v, 2));
        default: fprintf(stderr, "constexpr op %d\n", op); return Val();
        } }
    default: return Val();
    }
}
void Exec::writeConst(Obj* o, uint32_t off, LLVMValueRef v) {
    int k = LLVMGetValueKind(v); LLVMTypeRef ty = LLVMTypeOf(v); if (k == VKAggZero || k == VKUndef || k == VKPoison) return;
    if (k == VKDataArray && LLVMIsConstantString(v)) { size_t n; const char* p = LLVMGetAsString(v, &n); memcpy(o->bytes + off, p, n); return; }
    if (k == VKConstStruct || k == VKConstArray || k == VKDataArray || k == VKConstVector || k == VKDataVector) {
        if (LLVMGetTypeKind(ty) == TStruct) { unsigned n = LLVMCountStructElementTypes(ty); for (unsigned i = 0; i < n; ++i) writeConst(o, off + (uint32_t)LLVMOffsetOfElement(TD, ty, i), LLVMGetAggregateElement(v, i)); }
        else { uint64_t n = LLVMGetTypeKind(ty) == TVector ? LLVMGetVectorSize(ty) : LLVMGetArrayLength2(ty); unsigned st = td(LLVMGetElementType(ty))->alloc; for (uint64_t i = 0; i < n; ++i) writeConst(o, off + (uint32_t)(i * st), LLVMGetAggregateElement(v, (unsigned)i)); }
        return;
    }
    Val c = constVal(v); if (c.k == KC) { TypeD* t = td(ty); memcpy(o->bytes + off, &c.c, std::min<unsigned>(t->bytes, 8)); }
}
void Exec::decode(Func* f) {
    if (f->decoded) return; f->decoded = true; LLVMValueRef fn = f->v; std::unordered_map<LLVMValueRef, int> reg; std::unordered_map<LLVMBasicBlockRef, int> bpc, bix; std::unordered_map<LLVMValueRef, int> cix; int nr = 0;
    f->nparams = (int)LLVMCountParams(fn); for (int i = 0; i < f->nparams; ++i) reg[LLVMGetParam(fn, i)] = nr++;
    int pc = 0, bi = 0; for (auto b = LLVMGetFirstBasicBlock(fn); b; b = LLVMGetNextBasicBlock(b)) { bpc[b] = pc; bix[b] = bi++; for (auto i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) { int op = LLVMGetInstructionOpcode(i); if (LLVMGetTypeKind(LLVMTypeOf(i)) != TVoid) reg[i] = nr++; if (op != OpPHI) ++pc; } }
    f->nregs = nr;
    auto operand = [&](LLVMValueRef v) -> int { auto it = reg.find(v); if (it != reg.end()) return it->second; auto c = cix.find(v); if (c != cix.end()) return c->second; int k = LLVMGetValueKind(v); Val cv = (k == VKMetadata || k == VKInlineAsm) ? Val::C(0) : constVal(v); f->consts.push_back(cv); return cix[v] = -(int)f->consts.size(); };
    auto edge = [&](LLVMBasicBlockRef from, LLVMBasicBlockRef to) { Edge e; e.pc = bpc[to]; e.block = bix[to]; for (auto i = LLVMGetFirstInstruction(to); i && LLVMGetInstructionOpcode(i) == OpPHI; i = LLVMGetNextInstruction(i)) { unsigned n = LLVMCountIncoming(i); for (unsigned k = 0; k < n; ++k) if (LLVMGetIncomingBlock(i, k) == from) { e.moves.push_back({reg[i], operand(LLVMGetIncomingValue(i, k))}); break; } } return e; };
    static unsigned byvalKind = LLVMGetEnumAttributeKindForName("byval", 5);
    f->code.reserve(pc);
    for (auto b = LLVMGetFirstBasicBlock(fn); b; b = LLVMGetNextBasicBlock(b)) for (auto i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
        int op = LLVMGetInstructionOpcode(i); if (op == OpPHI) continue; f->code.emplace_back(); Inst& I = f->code.back(); I.op = op; I.v = i; I.blk = bix[b]; I.ty = td(LLVMTypeOf(i)); auto r = reg.find(i); I.dst = r == reg.end() ? -1 : r->second;
        switch (op) {
        case OpBr: if (LLVMIsConditional(i)) { I.ops.push_back(operand(LLVMGetCondition(i))); I.edges.push_back(edge(b, LLVMGetSuccessor(i, 0))); I.edges.push_back(edge(b, LLVMGetSuccessor(i, 1))); } else I.edges.push_back(edge(b, LLVMGetSuccessor(i, 0))); break;
        case OpSwitch: { I.ops.push_back(operand(LLVMGetOperand(i, 0))); I.oty = td(LLVMTypeOf(LLVMGetOperand(i, 0))); unsigned n = LLVMGetNumSuccessors(i); for (unsigned k = 0; k < n; ++k) { I.edges.push_back(edge(b, LLVMGetSuccessor(i, k))); if (k) I.cases.push_back(LLVMConstIntGetZExtValue(LLVMGetOperand(i, 2 * k))); } break; }
        case OpCall: case OpInvoke: {
            LLVMValueRef cv = LLVMGetCalledValue(i); unsigned n = LLVMGetNumArgOperands(i); if (LLVMGetValueKind(cv) == VKAlias) cv = LLVMAliasGetAliasee(cv); I.callee = funcOf(cv); if (!I.callee) I.calleeOp = operand(cv);
            for (unsigned k = 0; k < n; ++k) { LLVMValueRef a = LLVMGetOperand(i, k); I.ops.push_back(operand(a)); I.argTy.push_back(td(LLVMTypeOf(a))); LLVMAttributeRef at = LLVMGetCallSiteEnumAttribute(i, k + 1, byvalKind); if (at) I.byval.push_back({(int)k, td(LLVMGetTypeAttributeValue(at))}); }
            LLVMTypeRef ft = LLVMGetCalledFunctionType(i); I.fixedArgs = LLVMIsFunctionVarArg(ft) ? (int)0 : -1; if (I.fixedArgs == 0) { I.fixedArgs = I.callee ? (int)LLVMCountParams(I.callee->v) : 1; }
            if (op == OpInvoke) { I.edges.push_back(edge(b, LLVMGetNormalDest(i))); I.edges.push_back(edge(b, LLVMGetUnwindDest(i))); } break; }
        case OpGEP: {
            LLVMTypeRef cur = LLVMGetGEPSourceElementType(i); int n = LLVMGetNumOperands(i); I.ops.push_back(operand(LLVMGetOperand(i, 0)));
            for (int k = 1; k < n; ++k) { LLVMValueRef ix = LLVMGetOperand(i, k); int kind = LLVMGetValueKind(ix); int64_t sc; bool isStruct = k > 1 && LLVMGetTypeKind(cur) == TStruct;
                if (isStruct) { unsigned x = (unsigned)LLVMConstIntGetZExtValue(ix); I.aux += (int64_t)LLVMOffsetOfElement(TD, cur, x); cur = LLVMStructGetTypeAtIndex(cur, x); continue; }
                if (k > 1) cur = LLVMGetElementType(cur); sc = td(cur)->alloc; int w = (int)td(LLVMTypeOf(ix))->bits; if (kind == VKInt) I.aux += sx(LLVMConstIntGetZExtValue(ix), w) * sc; else { I.gep.push_back({operand(ix), sc}); I.opw.push_back(w); } }
            break; }
        case OpLandingPad: { I.cleanup = LLVMIsCleanup(i); unsigned n = LLVMGetNumClauses(i); for (unsigned k = 0; k < n; ++k) { LLVMValueRef c = LLVMGetClause(i, k); bool filter = LLVMGetTypeKind(LLVMTypeOf(c)) == TArray; I.clauses.push_back({filter, constVal(c)}); } break; }
        case OpAlloca: I.oty = td(LLVMGetAllocatedType(i)); I.ops.push_back(operand(LLVMGetOperand(i, 0))); break;
        case OpExtractValue: case OpInsertValue: { unsigned n = LLVMGetNumIndices(i); const unsigned* ix = LLVMGetIndices(i); I.idx.assign(ix, ix + n); int m = LLVMGetNumOperands(i); for (int k = 0; k < m; ++k) I.ops.push_back(operand(LLVMGetOperand(i, k))); break; }
        case OpShuffleVector: { unsigned n = LLVMGetNumMaskElements(i); for (unsigned k = 0; k < n; ++k) I.idx.push_back((unsigned)LLVMGetMaskValue(i, k)); I.ops.push_back(operand(LLVMGetOperand(i, 0))); I.ops.push_back(operand(LLVMGetOperand(i, 1))); I.oty = td(LLVMTypeOf(LLVMGetOperand(i, 0))); break; }
        default: { int m = LLVMGetNumOperands(i); for (int k = 0; k < m; ++k) I.ops.push_back(operand(LLVMGetOperand(i, k))); if (m) I.oty = td(LLVMTypeOf(LLVMGetOperand(i, 0))); if (op == OpLoad || op == OpStore) I.pred = (int)LLVMGetOrdering(i); if (op == OpICmp) I.pred = LLVMGetICmpPredicate(i); if (op == OpFCmp) I.pred = LLVMGetFCmpPredicate(i); if (op == OpAtomicRMW) { I.pred = LLVMGetAtomicRMWBinOp(i); } if (op == OpAtomicRMW || op == OpCmpXchg) I.oty = td(LLVMTypeOf(LLVMGetOperand(i, 1))); }
        }
    }
}
void Exec::load(const char* file) {
    LLVMContextRef ctx = LLVMContextCreate(); LLVMMemoryBufferRef mb; char* err = nullptr; if (LLVMCreateMemoryBufferWithContentsOfFile(file, &mb, &err)) { fprintf(stderr, "cannot read %s: %s\n", file, err); exit(3); }
    if (LLVMParseBitcodeInContext2(ctx, mb, &M)) { fprintf(stderr, "cannot parse %s\n", file); exit(3); } TD = LLVMGetModuleDataLayout(M);
    State tmp; 
    for (auto f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
        Func* fn = new Func; fn->name = nameOf(f); fn->v = f; fn->decl = LLVMIsDeclaration(f); funcs[f] = fn; byName[fn->name] = fn; fn->obj = alloc(tmp, 1, OFunc, true); wr(tmp, fn->obj)->fn = fn; bool ov = false; fn->bi = findBuiltin(fn->name, ov); fn->overrideBi = ov; fn->vararg = LLVMIsFunctionVarArg(LLVMGlobalGetValueType(f));
    }
    std::vector<LLVMValueRef> gs; for (auto g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) { gs.push_back(g); LLVMTypeRef t = LLVMGlobalGetValueType(g); unsigned sz = td(t)->alloc; if (LLVMIsDeclaration(g) && sz < 64) sz = 64; std::string nm = nameOf(g); uint32_t id = alloc(tmp, sz, OGlobal, true); globals[g] = id; globalByName[nm] = id; wr(tmp, id)->tag = strdup(nm.c_str()); if (LLVMIsThreadLocal(g)) { tlsInit[id] = g; tlsSize[id] = sz; } }
    for (auto g : gs) if (!LLVMIsDeclaration(g)) { Obj* o = wr(tmp, globals[g]); LLVMValueRef in = LLVMGetInitializer(g); if (in) writeConst(o, 0, in); if (LLVMIsGlobalConstant(g)) o->ro = true; }
    baseMem0 = tmp.mem;
}
