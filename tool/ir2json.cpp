// Dumps LLVM IR (after SROA only) as JSON for the Python analyses in /verif/vf.
// Nothing is executed: the module is only read, normalised and printed.
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Analysis/LoopInfo.h"
#include <map>
using namespace llvm;
using json::OStream;

static const DataLayout *DL;
static std::map<const Value *, int> Ids;

static json::Value typ(Type *T) {
  if (T->isVoidTy()) return "v";
  if (T->isIntegerTy()) return json::Array{"i", (int64_t)T->getIntegerBitWidth()};
  if (T->isPointerTy()) return "p";
  if (T->isFloatTy()) return json::Array{"f", 32};
  if (T->isDoubleTy()) return json::Array{"f", 64};
  if (T->isX86_FP80Ty()) return json::Array{"f", 80};
  if (auto *S = dyn_cast<StructType>(T)) {
    if (S->isOpaque()) return "o";
    json::Array A;
    auto *L = DL->getStructLayout(S);
    for (unsigned I = 0; I < S->getNumElements(); ++I)
      A.push_back(json::Array{(int64_t)L->getElementOffset(I).getFixedValue(), typ(S->getElementType(I))});
    return json::Array{"s", (int64_t)L->getSizeInBytes().getFixedValue(), std::move(A)};
  }
  if (auto *S = dyn_cast<ArrayType>(T))
    return json::Array{"a", (int64_t)S->getNumElements(),
      (int64_t)DL->getTypeAllocSize(S->getElementType()).getFixedValue(), typ(S->getElementType())};
  if (auto *S = dyn_cast<FixedVectorType>(T))
    return json::Array{"a", (int64_t)S->getNumElements(),
      (int64_t)DL->getTypeAllocSize(S->getElementType()).getFixedValue(), typ(S->getElementType())};
  if (T->isLabelTy()) return "l";
  if (T->isMetadataTy()) return "m";
  return "o";
}

static json::Value val(const Value *V);

static json::Value gepJson(const GEPOperator *G) {
  int64_t Off = 0;
  json::Array Vars;
  for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
    const Value *Idx = GTI.getOperand();
    if (auto *ST = GTI.getStructTypeOrNull()) {
      Off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(Idx)->getZExtValue()).getFixedValue();
      continue;
    }
    int64_t Sz = DL->getTypeAllocSize(GTI.getIndexedType()).getFixedValue();
    if (auto *CI = dyn_cast<ConstantInt>(Idx))
      Off += Sz * CI->getSExtValue();
    else
      Vars.push_back(json::Array{val(Idx), Sz});
  }
  return json::Array{val(G->getPointerOperand()), Off, std::move(Vars), G->isInBounds()};
}

static json::Value intv(const APInt &A) {
  if (A.getBitWidth() <= 63) return (int64_t)A.getZExtValue();
  SmallString<64> S; A.toString(S, 10, false); return std::string(S);
}

static json::Value val(const Value *V) {
  if (auto *F = dyn_cast<Function>(V)) return json::Array{"f", F->getName().str()};
  if (auto *A = dyn_cast<GlobalAlias>(V)) {
    return val(A->getAliasee()->stripPointerCasts());
  }
  if (isa<GlobalValue>(V)) return json::Array{"g", V->getName().str()};
  if (auto *CI = dyn_cast<ConstantInt>(V)) return json::Array{"c", (int64_t)CI->getBitWidth(), intv(CI->getValue())};
  if (isa<ConstantPointerNull>(V)) return json::Array{"null"};
  if (isa<UndefValue>(V)) return json::Array{"undef", typ(V->getType())};
  if (isa<ConstantAggregateZero>(V)) return json::Array{"zero", typ(V->getType())};
  if (auto *CF = dyn_cast<ConstantFP>(V)) {
    SmallString<32> S; CF->getValueAPF().toString(S); return json::Array{"fp", std::string(S)};
  }
  if (auto *CS = dyn_cast<ConstantDataSequential>(V)) {
    json::Array A;
    for (unsigned I = 0; I < CS->getNumElements(); ++I) A.push_back(val(CS->getElementAsConstant(I)));
    return json::Array{"agg", typ(V->getType()), std::move(A)};
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
    json::Array A;
    for (auto &O : CA->operands()) A.push_back(val(O));
    return json::Array{"agg", typ(V->getType()), std::move(A)};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *G = dyn_cast<GEPOperator>(CE)) return json::Array{"gep", gepJson(G)};
    json::Array A;
    for (auto &O : CE->operands()) A.push_back(val(O));
    return json::Array{"ce", CE->getOpcodeName(), typ(CE->getType()), std::move(A)};
  }
  if (auto *A = dyn_cast<Argument>(V)) return json::Array{"a", (int64_t)A->getArgNo()};
  auto It = Ids.find(V);
  if (It != Ids.end()) return json::Array{"i", It->second};
  return json::Array{"unk"};
}

static json::Value loc(const DebugLoc &D) {
  if (!D) return nullptr;
  auto *S = D->getScope()->getSubprogram();
  return json::Array{D->getFilename().str(), (int64_t)D.getLine(), S ? S->getName().str() : ""};
}

int main(int argc, char **argv) {
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 1; }
  bool DoSroa = !(argc > 2 && std::string(argv[2]) == "--nosroa");
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::OptimizeNone);
      if (DoSroa) {
        FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.run(F, FAM);
      }
    }
  }
  DL = &M->getDataLayout();
  OStream J(outs());
  J.object([&] {
    J.attributeArray("globals", [&] {
      for (auto &G : M->globals()) {
        J.object([&] {
          J.attribute("name", G.getName().str());
          J.attribute("const", G.isConstant());
          J.attribute("tls", G.isThreadLocal());
          J.attribute("demangled", demangle(G.getName().str()));
          if (G.getValueType()->isSized())
            J.attribute("size", (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue());
          if (G.hasInitializer()) {
            J.attribute("type", typ(G.getValueType()));
            if (auto *CD = dyn_cast<ConstantDataArray>(G.getInitializer()); CD && CD->isString()) {
              json::Array A; for (unsigned char C : CD->getAsString()) A.push_back((int64_t)C);
              J.attribute("bytes", std::move(A));
            } else
              J.attribute("init", val(G.getInitializer()));
          }
        });
      }
    });
    J.attributeArray("functions", [&] {
      for (auto &F : *M) {
        if (F.isIntrinsic() && F.use_empty()) continue;
        J.object([&] {
          J.attribute("name", F.getName().str());
          J.attribute("demangled", demangle(F.getName().str()));
          J.attribute("decl", F.isDeclaration());
          J.attribute("ret", typ(F.getReturnType()));
          J.attribute("noreturn", F.doesNotReturn());
          J.attribute("nounwind", F.doesNotThrow());
          J.attribute("varargs", F.isVarArg());
          json::Array As;
          for (auto &A : F.args())
            As.push_back(json::Array{typ(A.getType()), A.hasStructRetAttr(), A.hasByValAttr(),
              (int64_t)(A.hasByValAttr() ? DL->getTypeAllocSize(A.getParamByValType()).getFixedValue() : 0)});
          J.attribute("args", std::move(As));
          if (auto *SP = F.getSubprogram()) {
            J.attribute("file", SP->getFilename().str());
            J.attribute("dir", SP->getDirectory().str());
            J.attribute("line", (int64_t)SP->getLine());
            J.attribute("dname", SP->getName().str());
          }
          if (F.isDeclaration()) return;
          Ids.clear();
          int N = 0;
          std::map<const BasicBlock *, int> BB;
          for (auto &B : F) { BB[&B] = BB.size(); for (auto &I : B) Ids[&I] = N++; }
          DominatorTree DT(F);
          LoopInfo LI(DT);
          J.attributeArray("blocks", [&] {
            for (auto &B : F) {
              J.object([&] {
                J.attribute("hdr", LI.isLoopHeader(&B));
                J.attribute("npred", (int64_t)pred_size(&B));
                J.attributeArray("ins", [&] {
                  for (auto &I : B) {
                    if (isa<DbgInfoIntrinsic>(I)) continue;
                    J.object([&] {
                      J.attribute("id", Ids[&I]);
                      J.attribute("op", I.getOpcodeName());
                      J.attribute("ty", typ(I.getType()));
                      if (I.getDebugLoc()) J.attribute("loc", loc(I.getDebugLoc()));
                      if (auto *A = dyn_cast<AllocaInst>(&I)) {
                        J.attribute("size", (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue());
                        J.attribute("n", val(A->getArraySize()));
                        J.attribute("aty", typ(A->getAllocatedType()));
                        J.attribute("name", A->getName().str());
                      } else if (auto *G = dyn_cast<GEPOperator>(&I)) {
                        J.attribute("gep", gepJson(G));
                      } else if (auto *P = dyn_cast<PHINode>(&I)) {
                        json::Array In;
                        for (unsigned K = 0; K < P->getNumIncomingValues(); ++K)
                          In.push_back(json::Array{BB[P->getIncomingBlock(K)], val(P->getIncomingValue(K))});
                        J.attribute("in", std::move(In));
                      } else if (auto *C = dyn_cast<CmpInst>(&I)) {
                        J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()).str());
                        J.attribute("ops", json::Array{val(I.getOperand(0)), val(I.getOperand(1))});
                        J.attribute("oty", typ(I.getOperand(0)->getType()));
                      } else if (auto *C = dyn_cast<CallBase>(&I)) {
                        json::Array In;
                        for (auto &A : C->args()) In.push_back(val(A.get()));
                        J.attribute("ops", std::move(In));
                        if (C->getFunctionType()->isVarArg()) {
                          json::Array At;
                          for (auto &O : C->args()) At.push_back(typ(O->getType()));
                          J.attribute("at", std::move(At));
                        }
                        J.attribute("callee", val(C->getCalledOperand()->stripPointerCasts()));
                        J.attribute("noreturn", C->doesNotReturn());
                        J.attribute("nounwind", C->doesNotThrow());
                        if (auto *V = dyn_cast<InvokeInst>(&I)) {
                          J.attribute("normal", BB[V->getNormalDest()]);
                          J.attribute("unwind", BB[V->getUnwindDest()]);
                        }
                      } else if (auto *B = dyn_cast<BranchInst>(&I)) {
                        if (B->isConditional()) J.attribute("cond", val(B->getCondition()));
                        json::Array S; for (unsigned K = 0; K < B->getNumSuccessors(); ++K) S.push_back(BB[B->getSuccessor(K)]);
                        J.attribute("succ", std::move(S));
                      } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
                        J.attribute("cond", val(S->getCondition()));
                        J.attribute("default", BB[S->getDefaultDest()]);
                        json::Array A;
                        for (auto &C : S->cases()) A.push_back(json::Array{intv(C.getCaseValue()->getValue()), BB[C.getCaseSuccessor()]});
                        J.attribute("cases", std::move(A));
                        J.attribute("w", (int64_t)S->getCondition()->getType()->getIntegerBitWidth());
                      } else if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
                        json::Array A; for (auto K : E->getIndices()) A.push_back((int64_t)K);
                        J.attribute("idx", std::move(A));
                        J.attribute("ops", json::Array{val(I.getOperand(0))});
                      } else if (auto *E = dyn_cast<InsertValueInst>(&I)) {
                        json::Array A; for (auto K : E->getIndices()) A.push_back((int64_t)K);
                        J.attribute("idx", std::move(A));
                        J.attribute("ops", json::Array{val(I.getOperand(0)), val(I.getOperand(1))});
                      } else if (auto *L = dyn_cast<LandingPadInst>(&I)) {
                        J.attribute("cleanup", L->isCleanup());
                        json::Array A;
                        for (unsigned K = 0; K < L->getNumClauses(); ++K)
                          A.push_back(json::Array{L->isCatch(K) ? "catch" : "filter", val(L->getClause(K))});
                        J.attribute("clauses", std::move(A));
                      } else {
                        json::Array A;
                        for (auto &O : I.operands()) A.push_back(val(O.get()));
                        J.attribute("ops", std::move(A));
                        if (auto *S = dyn_cast<StoreInst>(&I)) J.attribute("oty", typ(S->getValueOperand()->getType()));
                        else if (I.getNumOperands()) J.attribute("oty", typ(I.getOperand(0)->getType()));
                      }
                    });
                  }
                });
              });
            }
          });
        });
      }
    });
  });
  outs() << "\n";
  return 0;
}
