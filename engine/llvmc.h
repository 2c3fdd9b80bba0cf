// Minimal hand-written declarations of the LLVM-C API (LLVM 18) used by dalsym; no LLVM headers are installed here.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
typedef struct LLVMOpaqueContext* LLVMContextRef; typedef struct LLVMOpaqueModule* LLVMModuleRef;
typedef struct LLVMOpaqueType* LLVMTypeRef; typedef struct LLVMOpaqueValue* LLVMValueRef;
typedef struct LLVMOpaqueBasicBlock* LLVMBasicBlockRef; typedef struct LLVMOpaqueMemoryBuffer* LLVMMemoryBufferRef;
typedef struct LLVMOpaqueTargetData* LLVMTargetDataRef; typedef struct LLVMOpaqueAttributeRef* LLVMAttributeRef;
typedef int LLVMBool;
LLVMContextRef LLVMContextCreate(void);
LLVMBool LLVMCreateMemoryBufferWithContentsOfFile(const char*, LLVMMemoryBufferRef*, char**);
LLVMBool LLVMParseBitcodeInContext2(LLVMContextRef, LLVMMemoryBufferRef, LLVMModuleRef*);
LLVMValueRef LLVMGetFirstFunction(LLVMModuleRef); LLVMValueRef LLVMGetNextFunction(LLVMValueRef);
LLVMValueRef LLVMGetFirstGlobal(LLVMModuleRef); LLVMValueRef LLVMGetNextGlobal(LLVMValueRef);
LLVMValueRef LLVMGetFirstGlobalAlias(LLVMModuleRef); LLVMValueRef LLVMGetNextGlobalAlias(LLVMValueRef);
LLVMValueRef LLVMAliasGetAliasee(LLVMValueRef); LLVMValueRef LLVMGetInitializer(LLVMValueRef);
LLVMBool LLVMIsDeclaration(LLVMValueRef); LLVMBool LLVMIsGlobalConstant(LLVMValueRef); LLVMBool LLVMIsThreadLocal(LLVMValueRef);
LLVMTypeRef LLVMGlobalGetValueType(LLVMValueRef);
const char* LLVMGetValueName2(LLVMValueRef, size_t*); LLVMTypeRef LLVMTypeOf(LLVMValueRef);
LLVMBasicBlockRef LLVMGetFirstBasicBlock(LLVMValueRef); LLVMBasicBlockRef LLVMGetNextBasicBlock(LLVMBasicBlockRef);
LLVMValueRef LLVMGetFirstInstruction(LLVMBasicBlockRef); LLVMValueRef LLVMGetNextInstruction(LLVMValueRef);
LLVMBasicBlockRef LLVMValueAsBasicBlock(LLVMValueRef);
int LLVMGetInstructionOpcode(LLVMValueRef); int LLVMGetValueKind(LLVMValueRef); int LLVMGetConstOpcode(LLVMValueRef);
int LLVMGetNumOperands(LLVMValueRef); LLVMValueRef LLVMGetOperand(LLVMValueRef, unsigned);
unsigned LLVMCountParams(LLVMValueRef); LLVMValueRef LLVMGetParam(LLVMValueRef, unsigned);
int LLVMGetICmpPredicate(LLVMValueRef); int LLVMGetFCmpPredicate(LLVMValueRef);
extern "C" int LLVMGetOrdering(LLVMValueRef);
LLVMTypeRef LLVMGetAllocatedType(LLVMValueRef); LLVMTypeRef LLVMGetGEPSourceElementType(LLVMValueRef);
unsigned LLVMCountIncoming(LLVMValueRef); LLVMValueRef LLVMGetIncomingValue(LLVMValueRef, unsigned); LLVMBasicBlockRef LLVMGetIncomingBlock(LLVMValueRef, unsigned);
unsigned LLVMGetNumIndices(LLVMValueRef); const unsigned* LLVMGetIndices(LLVMValueRef);
LLVMValueRef LLVMGetCalledValue(LLVMValueRef); unsigned LLVMGetNumArgOperands(LLVMValueRef);
LLVMBasicBlockRef LLVMGetNormalDest(LLVMValueRef); LLVMBasicBlockRef LLVMGetUnwindDest(LLVMValueRef);
unsigned LLVMGetNumSuccessors(LLVMValueRef); LLVMBasicBlockRef LLVMGetSuccessor(LLVMValueRef, unsigned);
LLVMBool LLVMIsConditional(LLVMValueRef); LLVMValueRef LLVMGetCondition(LLVMValueRef);
LLVMBool LLVMIsCleanup(LLVMValueRef); unsigned LLVMGetNumClauses(LLVMValueRef); LLVMValueRef LLVMGetClause(LLVMValueRef, unsigned);
int LLVMGetAtomicRMWBinOp(LLVMValueRef); unsigned LLVMGetNumMaskElements(LLVMValueRef); int LLVMGetMaskValue(LLVMValueRef, unsigned);
unsigned long long LLVMConstIntGetZExtValue(LLVMValueRef); double LLVMConstRealGetDouble(LLVMValueRef, LLVMBool*);
LLVMValueRef LLVMGetAggregateElement(LLVMValueRef, unsigned); const char* LLVMGetAsString(LLVMValueRef, size_t*); LLVMBool LLVMIsConstantString(LLVMValueRef);
int LLVMGetTypeKind(LLVMTypeRef); unsigned LLVMGetIntTypeWidth(LLVMTypeRef); unsigned LLVMCountStructElementTypes(LLVMTypeRef);
LLVMTypeRef LLVMStructGetTypeAtIndex(LLVMTypeRef, unsigned); LLVMTypeRef LLVMGetElementType(LLVMTypeRef); uint64_t LLVMGetArrayLength2(LLVMTypeRef); unsigned LLVMGetVectorSize(LLVMTypeRef);
LLVMTypeRef LLVMGetReturnType(LLVMTypeRef); LLVMTypeRef LLVMGetCalledFunctionType(LLVMValueRef);
LLVMTargetDataRef LLVMGetModuleDataLayout(LLVMModuleRef); unsigned long long LLVMOffsetOfElement(LLVMTargetDataRef, LLVMTypeRef, unsigned);
unsigned long long LLVMABISizeOfType(LLVMTargetDataRef, LLVMTypeRef); unsigned long long LLVMStoreSizeOfType(LLVMTargetDataRef, LLVMTypeRef);
char* LLVMPrintValueToString(LLVMValueRef); char* LLVMPrintTypeToString(LLVMTypeRef); void LLVMDisposeMessage(char*);
unsigned LLVMGetDebugLocLine(LLVMValueRef);
unsigned LLVMGetEnumAttributeKindForName(const char*, size_t); LLVMAttributeRef LLVMGetCallSiteEnumAttribute(LLVMValueRef, unsigned, unsigned); LLVMTypeRef LLVMGetTypeAttributeValue(LLVMAttributeRef);
LLVMBool LLVMIsFunctionVarArg(LLVMTypeRef);
}
enum { OpRet=1,OpBr=2,OpSwitch=3,OpInvoke=5,OpUnreachable=7,OpAdd=8,OpFAdd=9,OpSub=10,OpFSub=11,OpMul=12,OpFMul=13,OpUDiv=14,OpSDiv=15,OpFDiv=16,OpURem=17,OpSRem=18,OpFRem=19,OpShl=20,OpLShr=21,OpAShr=22,OpAnd=23,OpOr=24,OpXor=25,OpAlloca=26,OpLoad=27,OpStore=28,OpGEP=29,OpTrunc=30,OpZExt=31,OpSExt=32,OpFPToUI=33,OpFPToSI=34,OpUIToFP=35,OpSIToFP=36,OpFPTrunc=37,OpFPExt=38,OpPtrToInt=39,OpIntToPtr=40,OpBitCast=41,OpICmp=42,OpFCmp=43,OpPHI=44,OpCall=45,OpSelect=46,OpExtractElement=50,OpInsertElement=51,OpShuffleVector=52,OpExtractValue=53,OpInsertValue=54,OpFence=55,OpCmpXchg=56,OpAtomicRMW=57,OpResume=58,OpLandingPad=59,OpFNeg=66,OpFreeze=68 };
enum { TVoid=0,TFloat=2,TDouble=3,TX86FP80=4,TLabel=7,TInt=8,TFunc=9,TStruct=10,TArray=11,TPtr=12,TVector=13,TMeta=14,TToken=16 };
enum { VKArg=0,VKBB=1,VKFunc=5,VKAlias=6,VKGlobal=8,VKBlockAddr=9,VKConstExpr=10,VKConstArray=11,VKConstStruct=12,VKConstVector=13,VKUndef=14,VKAggZero=15,VKDataArray=16,VKDataVector=17,VKInt=18,VKFP=19,VKNull=20,VKTokenNone=21,VKMetadata=22,VKInlineAsm=23,VKInst=24,VKPoison=25 };
