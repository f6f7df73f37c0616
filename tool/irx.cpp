// irx: links LLVM bitcode modules, canonicalises them (helpers inlined, memory promoted to SSA,
// constant-trip loops unrolled) and prints the result as JSON for the Python rules.
// It never executes or symbolically executes the program.
//
//   irx -o OUT.json -anchors FILE [-dump REGEX] a.bc b.bc ...
//
// FILE lists regular expressions on demangled names: functions that match stay functions; every other
// function with a body that is not recursive is inlined into its callers.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
}

struct Dumper {
  Module &M;
  const DataLayout &DL;
  json::OStream &J;
  std::map<const Value *, int> id;
  int next = 0;
  ScalarEvolution *SE = nullptr;
  LoopInfo *LI = nullptr;
  std::map<const Loop *, int> loopId;

  Dumper(Module &M, json::OStream &J) : M(M), DL(M.getDataLayout()), J(J) {}

  int num(const Value *V) {
    auto it = id.find(V);
    if (it != id.end()) return it->second;
    int n = next++;
    id[V] = n;
    return n;
  }

  // operands: ["v",id] ["i",bits,"value"] ["f","float|double","hex64"] ["null"] ["undef"] ["g",name] ["e",op,...]
  void operand(const Value *V) {
    J.array([&] {
      if (auto *CI = dyn_cast<ConstantInt>(V)) {
        J.value("i"); J.value(CI->getBitWidth());
        SmallString<40> S; CI->getValue().toStringSigned(S);
        J.value(S.str());
      } else if (auto *CF = dyn_cast<ConstantFP>(V)) {
        bool lose;
        APFloat F = CF->getValueAPF();
        F.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
        J.value("f"); J.value(tyStr(V->getType()));
        SmallString<40> S; F.toString(S, 25, 0);
        J.value(S.str());
      } else if (isa<ConstantPointerNull>(V)) J.value("null");
      else if (isa<UndefValue>(V)) J.value("undef");
      else if (auto *GV = dyn_cast<GlobalValue>(V)) { J.value("g"); J.value(GV->getName()); }
      else if (auto *CE = dyn_cast<ConstantExpr>(V)) {
        J.value("e"); J.value(CE->getOpcodeName());
        for (auto &o : CE->operands()) operand(o);
      } else if (isa<Constant>(V)) {
        J.value("c"); std::string s; raw_string_ostream o(s); V->print(o); J.value(o.str());
      } else if (isa<MetadataAsValue>(V)) { J.value("md"); }
      else if (isa<InlineAsm>(V)) { J.value("asm"); }
      else if (auto *BB = dyn_cast<BasicBlock>(V)) { J.value("b"); J.value(num(BB)); }
      else { J.value("v"); J.value(num(V)); }
    });
  }

  void loc(const DebugLoc &D) {
    std::string s;
    if (const DILocation *L = D.get()) {
      bool first = true;
      for (; L; L = L->getInlinedAt()) {
        if (!first) s += " < ";
        first = false;
        StringRef f = L->getFilename();
        auto p = f.rfind('/');
        if (p != StringRef::npos) f = f.substr(p + 1);
        s += f.str() + ":" + std::to_string(L->getLine());
        if (auto *SP = L->getScope()->getSubprogram()) s += "(" + SP->getName().str() + ")";
      }
    }
    if (!s.empty()) J.attribute("dbg", s);
  }

  void scev(const SCEV *S, int depth = 0) {
    J.array([&] {
      if (depth > 40) { J.value("deep"); return; }
      switch (S->getSCEVType()) {
      case scConstant: {
        auto *C = cast<SCEVConstant>(S);
        SmallString<40> T; C->getAPInt().toStringSigned(T);
        J.value("const"); J.value(T.str()); break;
      }
      case scUnknown: J.value("unk"); operand(cast<SCEVUnknown>(S)->getValue()); break;
      case scTruncate: case scZeroExtend: case scSignExtend: case scPtrToInt: {
        auto *C = cast<SCEVCastExpr>(S);
        J.value(S->getSCEVType() == scTruncate ? "trunc" : S->getSCEVType() == scZeroExtend ? "zext" : S->getSCEVType() == scSignExtend ? "sext" : "ptrtoint");
        J.value((int64_t)(S->getType()->isIntegerTy() ? S->getType()->getIntegerBitWidth() : 64));
        scev(C->getOperand(), depth + 1); break;
      }
      case scAddExpr: case scMulExpr: case scSMaxExpr: case scUMaxExpr: case scSMinExpr: case scUMinExpr: case scSequentialUMinExpr: {
        const char *n = "?";
        switch (S->getSCEVType()) {
        case scAddExpr: n = "add"; break; case scMulExpr: n = "mul"; break; case scSMaxExpr: n = "smax"; break;
        case scUMaxExpr: n = "umax"; break; case scSMinExpr: n = "smin"; break; default: n = "umin"; }
        J.value(n);
        for (auto *o : cast<SCEVNAryExpr>(S)->operands()) scev(o, depth + 1);
        break;
      }
      case scUDivExpr: J.value("udiv"); scev(cast<SCEVUDivExpr>(S)->getLHS(), depth + 1); scev(cast<SCEVUDivExpr>(S)->getRHS(), depth + 1); break;
      case scAddRecExpr: {
        auto *A = cast<SCEVAddRecExpr>(S);
        J.value("rec"); J.value(loopId.count(A->getLoop()) ? loopId[A->getLoop()] : -1);
        for (auto *o : A->operands()) scev(o, depth + 1);
        break;
      }
      default: J.value("cnc");
      }
    });
  }

  void inst(Instruction &I) {
    J.object([&] {
      J.attribute("id", num(&I));
      J.attribute("op", I.getOpcodeName());
      if (auto *PE = dyn_cast<PossiblyExactOperator>(&I)) if (PE->isExact()) J.attribute("exact", true);
      J.attribute("ty", tyStr(I.getType()));
      if (auto *D = dyn_cast<PossiblyDisjointInst>(&I)) if (D->isDisjoint()) J.attribute("disjoint", 1);
      if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("aty", tyStr(A->getAllocatedType()));
        if (auto z = A->getAllocationSize(M.getDataLayout())) J.attribute("asz", (int64_t)z->getFixedValue());
      }
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value *, APInt> var; APInt off(64, 0);
        if (cast<GEPOperator>(G)->collectOffset(DL, 64, var, off)) {
          J.attribute("off", (int64_t)off.getSExtValue());
          J.attributeArray("var", [&] {
            for (auto &p : var) J.array([&] { operand(p.first); J.value((int64_t)p.second.getSExtValue()); });
          });
        }
      }
      if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeArray("in", [&] {
          for (unsigned k = 0; k < P->getNumIncomingValues(); k++)
            J.array([&] { J.value(num(P->getIncomingBlock(k))); operand(P->getIncomingValue(k)); });
        });
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        Value *cv = CB->getCalledOperand()->stripPointerCasts();
        if (auto *F = dyn_cast<Function>(cv)) {
          J.attribute("callee", F->getName());
          J.attribute("dem", demangle(F->getName().str()));
        } else { J.attributeBegin("fp"); operand(cv); J.attributeEnd(); }
        J.attributeArray("ops", [&] { for (auto &a : CB->args()) operand(a); });
      } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
        J.attributeArray("ops", [&] { operand(S->getCondition()); operand(S->getDefaultDest()); });
        J.attributeArray("cases", [&] {
          for (auto &c : S->cases()) J.array([&] { operand(c.getCaseValue()); J.value(num(c.getCaseSuccessor())); });
        });
      } else {
        J.attributeArray("ops", [&] { for (auto &o : I.operands()) operand(o); });
      }
      if (auto *E = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&] { for (auto x : E->indices()) J.value(x); });
      if (auto *E = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&] { for (auto x : E->indices()) J.value(x); });
      if (auto *L = dyn_cast<LoadInst>(&I)) J.attribute("sz", (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue());
      if (auto *S = dyn_cast<StoreInst>(&I)) J.attribute("sz", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue());
      if (SE && SE->isSCEVable(I.getType())) { J.attributeBegin("scev"); scev(SE->getSCEV(&I)); J.attributeEnd(); }
      loc(I.getDebugLoc());
    });
  }

  void function(Function &F, FunctionAnalysisManager &FAM) {
    id.clear(); next = 0; loopId.clear();
    SE = &FAM.getResult<ScalarEvolutionAnalysis>(F);
    LI = &FAM.getResult<LoopAnalysis>(F);
    for (auto &A : F.args()) num(&A);
    for (auto &B : F) num(&B);
    int n = 0;
    for (auto *L : LI->getLoopsInPreorder()) loopId[L] = n++;
    J.object([&] {
      J.attribute("name", F.getName());
      J.attribute("dem", demangle(F.getName().str()));
      J.attribute("ret", tyStr(F.getReturnType()));
      if (auto *SP = F.getSubprogram()) {
        StringRef f = SP->getFilename(); auto p = f.rfind('/'); if (p != StringRef::npos) f = f.substr(p + 1);
        J.attribute("file", f); J.attribute("line", (int64_t)SP->getLine());
      }
      J.attributeArray("args", [&] {
        for (auto &A : F.args()) J.object([&] {
          J.attribute("id", num(&A)); J.attribute("name", A.getName()); J.attribute("ty", tyStr(A.getType()));
        });
      });
      J.attributeArray("blocks", [&] {
        for (auto &B : F) J.object([&] {
          J.attribute("id", num(&B));
          J.attributeArray("succ", [&] { for (auto *S : successors(&B)) J.value(num(S)); });
          J.attributeArray("ins", [&] { for (auto &I : B) { if (isa<DbgInfoIntrinsic>(&I)) continue; inst(I); } });
        });
      });
      J.attributeArray("loops", [&] {
        for (auto *L : LI->getLoopsInPreorder()) J.object([&] {
          J.attribute("id", loopId[L]);
          J.attribute("parent", L->getParentLoop() ? loopId[L->getParentLoop()] : -1);
          J.attribute("header", num(L->getHeader()));
          J.attribute("depth", (int)L->getLoopDepth());
          J.attributeArray("blocks", [&] { for (auto *B : L->blocks()) J.value(num(B)); });
          J.attributeBegin("btc"); scev(SE->getBackedgeTakenCount(L)); J.attributeEnd();
        });
      });
    });
  }
};

// fully unrolls every loop whose trip count is a constant of at most 24, innermost first
struct SmallUnroll : PassInfoMixin<SmallUnroll> {
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &FAM) {
    bool any = false, again = true;
    for (int round = 0; again && round < 400; round++) {
      again = false;
      auto &LI = FAM.getResult<LoopAnalysis>(F);
      auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
      auto &DT = FAM.getResult<DominatorTreeAnalysis>(F);
      auto &AC = FAM.getResult<AssumptionAnalysis>(F);
      auto &TTI = FAM.getResult<TargetIRAnalysis>(F);
      auto &ORE = FAM.getResult<OptimizationRemarkEmitterAnalysis>(F);
      auto Ls = LI.getLoopsInPreorder();
      for (auto it = Ls.rbegin(); it != Ls.rend(); ++it) {
        Loop *L = *it;
        if (!L->isInnermost() || !L->isLoopSimplifyForm() || !L->getLoopLatch()) continue;
        unsigned tc = SE.getSmallConstantTripCount(L);
        if (!tc) tc = SE.getSmallConstantMaxTripCount(L);
        if (!tc || tc > 24) continue;
        unsigned size = 0;
        for (auto *B : L->blocks()) size += B->size();
        if (size * tc > 40000) continue;
        formLCSSARecursively(*L, DT, &LI, &SE);
        UnrollLoopOptions O;
        O.Count = tc; O.Force = true; O.Runtime = false; O.AllowExpensiveTripCount = true; O.UnrollRemainder = false; O.ForgetAllSCEV = true;
        auto r = UnrollLoop(L, O, &LI, &SE, &DT, &AC, &TTI, &ORE, true);
        if (r != LoopUnrollResult::Unmodified) { any = again = true; break; }
      }
      if (again) FAM.invalidate(F, PreservedAnalyses::none());
    }
    return any ? PreservedAnalyses::none() : PreservedAnalyses::all();
  }
};

// parameter types of a demangled signature
static std::vector<std::string> paramTypes(const std::string &d) {
  std::vector<std::string> out;
  int depth = 0; size_t end = d.rfind(')'), i = end;
  if (end == std::string::npos) return out;
  for (;; i--) {
    char c = d[i];
    if (c == ')' || c == '>') depth++;
    else if (c == '(' || c == '<') { if (--depth == 0) break; }
    if (i == 0) return out;
  }
  std::string cur; depth = 0;
  for (size_t k = i + 1; k < end; k++) {
    char c = d[k];
    if (c == '<' || c == '(') depth++;
    if (c == '>' || c == ')') depth--;
    if (c == ',' && !depth) { out.push_back(cur); cur.clear(); } else cur += c;
  }
  if (!cur.empty()) out.push_back(cur);
  return out;
}

// a scalar variable handed to the C++ library by const reference stays a value of its own: the call gets a copy
static void copyConstRefs(Module &M) {
  for (auto &F : M) for (auto &B : F) for (auto &I : B) {
    auto *CB = dyn_cast<CallBase>(&I);
    if (!CB || !CB->getCalledFunction()) continue;
    std::string d = demangle(CB->getCalledFunction()->getName().str());
    if (d.compare(0, 5, "std::") && d.find(" std::") == std::string::npos) continue;
    auto ps = paramTypes(d);
    if (ps.empty() || ps.size() > CB->arg_size()) continue;
    unsigned off = CB->arg_size() - ps.size();
    for (unsigned k = 0; k < ps.size(); k++) {
      auto &t = ps[k];
      if (t.size() < 7 || t.compare(t.size() - 6, 6, "const&")) continue;
      auto *A = dyn_cast<AllocaInst>(CB->getArgOperand(off + k));
      if (!A || !A->getAllocatedType()->isSingleValueType() || A->isArrayAllocation()) continue;
      auto *T = new AllocaInst(A->getAllocatedType(), 0, "", &*F.getEntryBlock().getFirstInsertionPt());
      auto *V = new LoadInst(A->getAllocatedType(), A, "", CB);
      new StoreInst(V, T, CB);
      CB->setArgOperand(off + k, T);
    }
  }
}

int main(int argc, char **argv) {
  std::string out, anchorsFile, dumpRe = ".", emitll;
  bool raw = false;
  std::vector<std::string> bcs;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i];
    else if (a == "-anchors") anchorsFile = argv[++i];
    else if (a == "-dump") dumpRe = argv[++i];
    else if (a == "-ll") emitll = argv[++i];
    else if (a == "-raw") raw = true;          // only mem2reg, no inlining
    else bcs.push_back(a);
  }
  LLVMContext C;
  SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (auto &f : bcs) {
    auto m = parseIRFile(f, err, C);
    if (!m) { err.print("irx", errs()); return 3; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed " << f << "\n"; return 3; }
  }
  std::vector<Regex> anchors;
  if (!anchorsFile.empty()) {
    std::ifstream is(anchorsFile); std::string l;
    while (std::getline(is, l)) if (!l.empty() && l[0] != '#') anchors.emplace_back(l);
  }
  Regex deriveRe("derive_cp|max_eb_to_keep_position_and_type");
  auto isAnchor = [&](Function &F) {
    std::string d = demangle(F.getName().str());
    for (auto &r : anchors) if (r.match(d)) return true;
    // bound derivations: scalar functions of a cell's field values (by name and shape, so that extracted helpers do not match)
    if (deriveRe.match(F.getName()) && F.getReturnType()->isDoubleTy()) {
      unsigned n = 0;
      for (auto &A : F.args()) n += A.getType()->isFloatingPointTy();
      return n >= 6;
    }
    return false;
  };
  copyConstRefs(*M);
  // recursive functions are never inlined
  std::set<Function *> recursive;
  {
    CallGraph CG(*M);
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it)
      if (it.hasCycle()) for (auto *n : *it) if (n->getFunction()) recursive.insert(n->getFunction());
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::AlwaysInline);
    bool keep = raw || isAnchor(F) || recursive.count(&F);
    if (keep) F.addFnAttr(Attribute::NoInline);
    else F.addFnAttr(Attribute::AlwaysInline);
    // every definition is the one that runs: let the inliner use it
    if (F.hasLinkOnceLinkage() || F.hasWeakLinkage()) { F.setLinkage(keep ? GlobalValue::ExternalLinkage : GlobalValue::InternalLinkage); F.setComdat(nullptr); }
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  TargetLibraryInfoImpl TLII(Triple(M->getTargetTriple()));
  TLII.disableAllFunctions();              // library calls stay the calls the source makes
  FAM.registerPass([&] { return TargetLibraryAnalysis(TLII); });
  PassBuilder PB;
  PB.registerPipelineParsingCallback([](StringRef N, FunctionPassManager &P, ArrayRef<PassBuilder::PipelineElement>) {
    if (N == "small-unroll") { P.addPass(SmallUnroll()); return true; }
    return false;
  });
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  const char *pipe = raw
    ? "function(lowerinvoke,simplifycfg,sroa,early-cse,simplifycfg,loop-simplify)"
    : "function(lowerinvoke,simplifycfg,sroa,early-cse),always-inline,globaldce,"
      "function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,"
      "loop-simplify,lcssa,loop(loop-rotate<header-duplication>,indvars),loop-simplify,small-unroll,"
      "sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,"
      "sroa,gvn<no-pre;no-load-pre;no-split-backedge-load-pre>,instcombine<no-verify-fixpoint>,simplifycfg,adce,"
      "loop-simplify,lcssa,loop(loop-rotate<header-duplication>,indvars),loop-simplify,small-unroll,"
      "sroa,gvn<no-pre;no-load-pre;no-split-backedge-load-pre>,instcombine<no-verify-fixpoint>,simplifycfg,adce,"
      "loop-simplify,lcssa,loop(indvars),instcombine<no-verify-fixpoint>,sroa,early-cse<memssa>,simplifycfg,adce,loop-simplify,lcssa),globaldce";
  if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; return 3; }
  MPM.run(*M, MAM);
  if (verifyModule(*M, &errs())) return 3;
  if (!emitll.empty()) { std::error_code ec; raw_fd_ostream o(emitll, ec); M->print(o, nullptr); }
  std::error_code ec;
  raw_fd_ostream os(out.empty() ? "-" : out, ec);
  json::OStream J(os);
  Regex dr(dumpRe);
  J.object([&] {
    J.attributeArray("globals", [&] {
      for (auto &G : M->globals()) J.object([&] {
        J.attribute("name", G.getName()); J.attribute("dem", demangle(G.getName().str()));
        J.attribute("const", G.isConstant()); J.attribute("def", !G.isDeclaration());
        J.attribute("ty", tyStr(G.getValueType()));
        if (G.getValueType()->isSized()) J.attribute("sz", (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType()).getFixedValue());
        J.attribute("tls", G.isThreadLocal());
        if (G.hasInitializer()) {
          std::string s; raw_string_ostream o(s); G.getInitializer()->print(o);
          if (s.size() < 400) J.attribute("init", json::fixUTF8(o.str()));
          if (auto *CDA = dyn_cast<ConstantDataSequential>(G.getInitializer())) if (CDA->isString()) J.attribute("str", json::fixUTF8(CDA->getAsString()));
        }
      });
    });
    J.attributeArray("decls", [&] { for (auto &F : *M) if (F.isDeclaration()) J.value(F.getName()); });
    J.attributeArray("defs", [&] { for (auto &F : *M) if (!F.isDeclaration()) J.value(F.getName()); });
    J.attributeArray("functions", [&] {
      Dumper D(*M, J);
      for (auto &F : *M) {
        if (F.isDeclaration() || !dr.match(demangle(F.getName().str()))) continue;
        D.function(F, FAM);
      }
    });
  });
  return 0;
}
