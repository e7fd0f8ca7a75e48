// irx: normalise the program's LLVM IR and dump it as JSON for the rule layer.
//   irx <linked.bc> <policy.txt> <out.json>
// policy lines:
//   keep <regex>      functions (demangled, no return type) that stay as calls: the vocabulary of the rules
//   inline <regex>    functions that are inlined into every caller; the first matching line wins
//   dump <regex>      functions whose normalised body is written out
//   virt <tag>|<regex of function>|<arg no>|<vtable symbol>
//                     adds a clone "<tag>@<function>" in which the dynamic type of the argument is fixed, so that
//                     virtual calls on it become direct calls (and are then subject to keep/inline)
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/InstructionSimplify.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

struct Rule { bool keep; std::shared_ptr<Regex> re; };
struct Virt { std::string tag; std::shared_ptr<Regex> re; unsigned arg; long off; std::string vt; unsigned hits = 0; };
struct FixedTy { unsigned arg; long off; GlobalVariable *vt; };
// clang may split a path into the directory it was called in and the rest
template <class T> static std::string fileOf(const T *N) {
    std::string f = N->getFilename().str(), d = N->getDirectory().str();
    return f.empty() || f[0] == '/' || d.empty() || d[0] != '/' ? f : d + "/" + f;
}
static std::vector<Rule> rules;
static std::vector<std::shared_ptr<Regex>> dumps;
static std::vector<Virt> virts;
static std::map<std::string, std::string> prettyCache;

static std::shared_ptr<Regex> mk(const std::string &v) {
    auto r = std::make_shared<Regex>(v);
    std::string e;
    if (!r->isValid(e)) { errs() << "bad regex " << v << ": " << e << "\n"; exit(2); }
    return r;
}

// demangled name without return type: "ctx::base(params)"
static std::string prettyName(StringRef mangled0) {
    std::string mangled = mangled0.str();
    auto c = prettyCache.find(mangled);
    if (c != prettyCache.end()) return c->second;
    std::string prefix, m = mangled;
    size_t at = m.find('@');
    if (at != std::string::npos) { prefix = m.substr(0, at + 1); m = m.substr(at + 1); }
    std::string d = demangle(m);
    ItaniumPartialDemangler P;
    if (!P.partialDemangle(m.c_str()) && P.isFunction()) {
        size_t n = 0;
        char *nm = P.getFunctionName(nullptr, &n);
        std::string name = nm ? nm : "";
        free(nm);
        n = 0;
        char *pr = P.getFunctionParameters(nullptr, &n);
        std::string params = pr ? pr : "";
        free(pr);
        if (!name.empty()) d = name + params;
    }
    return prettyCache[mangled] = prefix + d;
}

// -------------------------------------------------------------------------------- debug-info types
static std::map<const DIType *, int> tyId;
static std::vector<const DIType *> tyList;
static int typeRef(const DIType *T) {
    if (!T) return -1;
    auto it = tyId.find(T);
    if (it != tyId.end()) return it->second;
    int id = (int)tyList.size();
    tyId[T] = id;
    tyList.push_back(T);
    return id;
}
static std::string scopeName(const DIScope *S) {
    std::string r;
    while (S) {
        std::string n;
        if (auto *C = dyn_cast<DICompositeType>(S)) {
            n = C->getName().str();
            if (n.empty()) n = "(anon)";
        } else if (auto *N = dyn_cast<DINamespace>(S)) {
            n = N->getName().str();
            if (n.empty() || N->getExportSymbols()) { S = S->getScope(); continue; }
        } else if (auto *SP = dyn_cast<DISubprogram>(S)) {
            n = SP->getName().str() + "()";
        } else if (isa<DIFile>(S) || isa<DICompileUnit>(S)) {
            break;
        } else { S = S->getScope(); continue; }
        r = r.empty() ? n : n + "::" + r;
        S = S->getScope();
    }
    return r;
}
static std::string typeName(const DIType *T) {
    if (!T) return "void";
    std::string n = T->getName().str();
    std::string s = scopeName(T->getScope());
    return s.empty() ? n : s + "::" + n;
}
static json::Value typeJson(const DIType *T) {
    json::Object o;
    if (auto *B = dyn_cast<DIBasicType>(T)) {
        o["k"] = "basic"; o["n"] = B->getName().str(); o["sz"] = (int64_t)(B->getSizeInBits() / 8);
    } else if (auto *D = dyn_cast<DIDerivedType>(T)) {
        switch (D->getTag()) {
            case dwarf::DW_TAG_pointer_type: o["k"] = "ptr"; break;
            case dwarf::DW_TAG_reference_type: o["k"] = "ref"; break;
            case dwarf::DW_TAG_rvalue_reference_type: o["k"] = "rref"; break;
            case dwarf::DW_TAG_const_type: o["k"] = "const"; break;
            case dwarf::DW_TAG_volatile_type: o["k"] = "volatile"; break;
            case dwarf::DW_TAG_typedef: o["k"] = "typedef"; o["n"] = typeName(D); break;
            case dwarf::DW_TAG_member: o["k"] = "member"; o["n"] = D->getName().str(); break;
            case dwarf::DW_TAG_inheritance: o["k"] = "inh"; break;
            default: o["k"] = "derived"; o["n"] = D->getName().str(); break;
        }
        o["b"] = typeRef(D->getBaseType());
        o["sz"] = (int64_t)(D->getSizeInBits() / 8);
    } else if (auto *C = dyn_cast<DICompositeType>(T)) {
        switch (C->getTag()) {
            case dwarf::DW_TAG_class_type: o["k"] = "class"; break;
            case dwarf::DW_TAG_structure_type: o["k"] = "class"; break;
            case dwarf::DW_TAG_union_type: o["k"] = "union"; break;
            case dwarf::DW_TAG_enumeration_type: o["k"] = "enum"; break;
            case dwarf::DW_TAG_array_type: o["k"] = "array"; break;
            default: o["k"] = "composite"; break;
        }
        o["n"] = typeName(C);
        o["id"] = C->getIdentifier().str();
        o["sz"] = (int64_t)(C->getSizeInBits() / 8);
        o["decl"] = C->isForwardDecl();
        o["f"] = fileOf(C);
        o["l"] = (int64_t)C->getLine();
        if (C->getBaseType()) o["b"] = typeRef(C->getBaseType());
        json::Array mem;
        for (auto *E : C->getElements()) {
            if (auto *M = dyn_cast_or_null<DIDerivedType>(E)) {
                json::Object mo;
                mo["k"] = M->getTag() == dwarf::DW_TAG_inheritance ? "base"
                          : M->isStaticMember() ? "static" : M->getTag() == dwarf::DW_TAG_member ? "field" : "other";
                mo["n"] = M->getName().str();
                mo["o"] = (int64_t)(M->getOffsetInBits() / 8);
                mo["t"] = typeRef(M->getBaseType());
                mo["acc"] = M->isPrivate() ? "private" : M->isProtected() ? "protected" : M->isPublic() ? "public" : "";
                mem.push_back(std::move(mo));
            } else if (auto *En = dyn_cast_or_null<DIEnumerator>(E)) {
                json::Object mo;
                mo["k"] = "enumerator"; mo["n"] = En->getName().str(); mo["v"] = En->getValue().getSExtValue();
                mem.push_back(std::move(mo));
            } else if (auto *SR = dyn_cast_or_null<DISubrange>(E)) {
                json::Object mo;
                mo["k"] = "range";
                if (auto *CI = dyn_cast_if_present<ConstantInt *>(SR->getCount())) mo["v"] = CI->getSExtValue();
                mem.push_back(std::move(mo));
            } else if (auto *SP = dyn_cast_or_null<DISubprogram>(E)) {
                json::Object mo;
                mo["k"] = "method"; mo["n"] = SP->getName().str(); mo["ln"] = SP->getLinkageName().str();
                mo["virt"] = (int64_t)SP->getVirtuality(); mo["vi"] = SP->getVirtuality() ? (int64_t)SP->getVirtualIndex() : -1;
                mo["acc"] = SP->isPrivate() ? "private" : SP->isProtected() ? "protected" : SP->isPublic() ? "public"
                            : C->getTag() == dwarf::DW_TAG_class_type ? "private" : "public";
                mo["del"] = SP->isDeleted();
                mem.push_back(std::move(mo));
            }
        }
        o["m"] = std::move(mem);
    } else if (isa<DISubroutineType>(T)) {
        o["k"] = "fn";
    } else o["k"] = "?";
    return o;
}

// -------------------------------------------------------------------------------- locations
static std::map<const DILocation *, int> locId;
static std::vector<json::Value> locOut;
static json::Value spJson(const DISubprogram *SP) {
    json::Object o;
    o["n"] = SP->getName().str();
    o["ln"] = SP->getLinkageName().str();
    o["f"] = fileOf(SP);
    o["l"] = (int64_t)SP->getLine();
    o["scope"] = scopeName(SP->getScope());
    if (auto *C = dyn_cast_or_null<DICompositeType>(SP->getScope())) o["cls"] = typeRef(C);
    json::Array tys;
    if (auto *ST = SP->getType())
        for (auto *T : ST->getTypeArray()) tys.push_back(typeRef(T));
    o["t"] = std::move(tys);
    return o;
}
static std::map<const DISubprogram *, int> spId;
static std::vector<json::Value> spOut;
static int spRef(const DISubprogram *SP) {
    if (!SP) return -1;
    auto it = spId.find(SP);
    if (it != spId.end()) return it->second;
    int id = (int)spOut.size();
    spId[SP] = id;
    spOut.push_back(nullptr);
    spOut[id] = spJson(SP);
    return id;
}
static int locRef(const DILocation *L) {
    if (!L) return -1;
    auto it = locId.find(L);
    if (it != locId.end()) return it->second;
    int inl = locRef(L->getInlinedAt());
    json::Array a;
    a.push_back(fileOf(L));
    a.push_back((int64_t)L->getLine());
    a.push_back(spRef(L->getScope()->getSubprogram()));
    a.push_back(inl);
    int id = (int)locOut.size();
    locOut.push_back(std::move(a));
    locId[L] = id;
    return id;
}

// -------------------------------------------------------------------------------- normalisation
static std::map<const Function *, int> inlCache;
static bool wantInline(Function *F) {
    if (F->isDeclaration() || F->isVarArg()) return false;
    auto it = inlCache.find(F);
    if (it != inlCache.end()) return it->second;
    std::string n = prettyName(F->getName());
    bool r = false;
    size_t at = n.find('@');
    if (at == std::string::npos) {
        bool named = false;
        for (auto &ru : rules)
            if (ru.re->match(n)) { r = !ru.keep; named = true; break; }
        // helpers outside the library's namespaces (file-local functions)
        if (!named && F->getName() != "main" && !F->getName().starts_with("_GLOBAL__") && !F->getName().starts_with("__cxx"))
            if (auto *SP = F->getSubprogram()) {
                std::string fn = SP->getFile() ? fileOf(SP->getFile()) : "";
                r = fn.rfind("/usr/", 0) != 0 && fn.find("/fmt/") == std::string::npos && fn.find("concurrentqueue") == std::string::npos;
            }
    }
    inlCache[F] = r;
    return r;
}
// folds constant terminators, drops unreachable blocks and merges straight-line blocks; never turns control flow
// into selects
struct MiniCFG : PassInfoMixin<MiniCFG> {
    PreservedAnalyses run(Function &F, FunctionAnalysisManager &) {
        for (auto &BB : F) ConstantFoldTerminator(&BB, true);
        removeUnreachableBlocks(F);
        for (auto it = F.begin(); it != F.end();) {
            BasicBlock *BB = &*it++;
            MergeBlockIntoPredecessor(BB);
        }
        return PreservedAnalyses::none();
    }
};
struct Simplifier {
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    FunctionPassManager FPM;
    Simplifier() {
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        for (int i = 0; i < 2; i++) {
            FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
            FPM.addPass(EarlyCSEPass(false));
            FPM.addPass(InstSimplifyPass());
            FPM.addPass(SCCPPass());
            FPM.addPass(MiniCFG());
            FPM.addPass(ADCEPass());
        }
    }
    void run(Function &F) { if (!F.isDeclaration()) { FPM.run(F, FAM); FAM.clear(F, F.getName()); } }
};
static bool inlineInto(Function &F, const std::set<Function *> &scc) {
    bool changed = false;
    for (int round = 0; round < 12; round++) {
        std::vector<CallBase *> cs;
        for (auto &I : instructions(F))
            if (auto *CB = dyn_cast<CallBase>(&I))
                if (Function *C = CB->getCalledFunction())
                    if (C != &F && !scc.count(C) && wantInline(C) && C->getFunctionType() == CB->getFunctionType())
                        cs.push_back(CB);
        if (cs.empty()) break;
        for (auto *CB : cs) {
            InlineFunctionInfo IFI;
            if (InlineFunction(*CB, IFI, /*MergeAttributes=*/false).isSuccess()) changed = true;
        }
    }
    return changed;
}
// replace loads of the vtable pointer of the fixed object: the argument itself, or (off >= 0) every pointer loaded
// from <argument>+off
static bool devirt(Function &F, const FixedTy &X) {
    bool changed = false;
    Argument *A = F.getArg(X.arg);
    GlobalVariable *VT = X.vt;
    const DataLayout &DL = F.getParent()->getDataLayout();
    std::set<const Value *> bases;
    auto at = [&](const Value *P, const Value *B0, int64_t want) {
        APInt off(64, 0);
        const Value *B = P->stripAndAccumulateConstantOffsets(DL, off, true);
        return B == B0 && off.getSExtValue() == want;
    };
    if (X.off < 0) bases.insert(A);
    else
        for (auto &I : instructions(F))
            if (auto *L = dyn_cast<LoadInst>(&I))
                if (L->getType()->isPointerTy() && at(L->getPointerOperand(), A, X.off)) bases.insert(L);
    std::vector<LoadInst *> ls;
    for (auto &I : instructions(F))
        if (auto *L = dyn_cast<LoadInst>(&I))
            if (L->getType()->isPointerTy())
                for (auto *B : bases) if (at(L->getPointerOperand(), B, 0)) { ls.push_back(L); break; }
    auto &C = F.getContext();
    for (auto *L : ls) {
        Constant *idx[] = {ConstantInt::get(Type::getInt64Ty(C), 16)};
        Constant *p = ConstantExpr::getInBoundsGetElementPtr(Type::getInt8Ty(C), VT, idx);
        L->replaceAllUsesWith(p);
        L->eraseFromParent();
        changed = true;
    }
    for (bool again = true; again;) {
        again = false;
        for (auto &I : instructions(F))
            if (auto *L = dyn_cast<LoadInst>(&I)) {
                Value *P = L->getPointerOperand();
                auto *CP = dyn_cast<Constant>(P);
                if (!CP) {
                    APInt off(64, 0);
                    Value *B = P->stripAndAccumulateConstantOffsets(DL, off, true);
                    if (B == VT)
                        CP = ConstantExpr::getInBoundsGetElementPtr(
                            Type::getInt8Ty(C), VT, (Constant *)ConstantInt::get(Type::getInt64Ty(C), off.getSExtValue()));
                }
                if (!CP || CP->stripInBoundsConstantOffsets() != VT) continue;
                if (Constant *R = ConstantFoldLoadFromConstPtr(CP, L->getType(), DL)) {
                    L->replaceAllUsesWith(R);
                    L->eraseFromParent();
                    changed = again = true;
                    break;
                }
            }
    }
    // direct calls through a constant callee are already direct after RAUW
    return changed;
}

// -------------------------------------------------------------------------------- dump
static const DataLayout *DLp;
static json::Value operand(const Value *V, std::map<const Value *, int> &ids);
static std::string tyStr(Type *T) {
    if (T->isPointerTy()) return "ptr";
    if (auto *S = dyn_cast<StructType>(T)) if (S->hasName()) return S->getName().str();
    std::string s; raw_string_ostream o(s); T->print(o); return s;
}
static std::set<const GlobalVariable *> usedGlobals;
static std::set<const Function *> usedFns;
static json::Value operand(const Value *V, std::map<const Value *, int> &ids) {
    json::Array a;
    if (auto *A = dyn_cast<Argument>(V)) { a.push_back("a"); a.push_back((int64_t)A->getArgNo()); }
    else if (isa<Instruction>(V)) { a.push_back("v"); a.push_back(ids.at(V)); }
    else if (auto *CI = dyn_cast<ConstantInt>(V)) {
        a.push_back("c");
        if (CI->getBitWidth() <= 64) a.push_back(CI->getBitWidth() == 1 ? (int64_t)CI->getZExtValue() : CI->getSExtValue());
        else a.push_back(0);
    } else if (isa<ConstantPointerNull>(V)) a.push_back("n");
    else if (isa<UndefValue>(V)) a.push_back("u");
    else if (auto *BB = dyn_cast<BasicBlock>(V)) { a.push_back("b"); a.push_back(ids.at(BB)); }
    else if (auto *MV = dyn_cast<MetadataAsValue>(V)) { (void)MV; a.push_back("md"); }
    else if (auto *F = dyn_cast<Function>(V)) { usedFns.insert(F); a.push_back("f"); a.push_back(F->getName().str()); }
    else if (auto *C = dyn_cast<Constant>(V)) {
        APInt off(64, 0);
        const Constant *P = C;      // an address as a number is that address
        if (auto *CE = dyn_cast<ConstantExpr>(C)) if (CE->getOpcode() == Instruction::PtrToInt) P = CE->getOperand(0);
        const Value *B = P->getType()->isPointerTy() ? P->stripAndAccumulateConstantOffsets(*DLp, off, true) : C;
        if (auto *G = dyn_cast<GlobalVariable>(B)) {
            usedGlobals.insert(G);
            a.push_back("g"); a.push_back(G->getName().str()); a.push_back(off.getSExtValue());
        } else if (auto *F2 = dyn_cast<Function>(B)) { usedFns.insert(F2); a.push_back("f"); a.push_back(F2->getName().str()); }
        else if (isa<ConstantAggregateZero>(C)) a.push_back("z");
        else if (auto *CF = dyn_cast<ConstantFP>(C)) { a.push_back("fp"); a.push_back(CF->getValueAPF().convertToDouble()); }
        else {
            a.push_back("x");
            std::string s; raw_string_ostream o(s); C->print(o); a.push_back(s);
            // expose operands of constant expressions / aggregates
            json::Array ops;
            for (auto &U : C->operands()) if (!isa<BasicBlock>(U.get())) ops.push_back(operand(U.get(), ids));
            a.push_back(std::move(ops));
        }
    } else { a.push_back("?"); }
    return a;
}

static json::Value dumpFunction(Function &F) {
    json::Object fo;
    std::map<const Value *, int> ids;
    int nb = 0, ni = 0;
    for (auto &BB : F) { ids[&BB] = nb++; for (auto &I : BB) ids[&I] = ni++; }
    fo["m"] = F.getName().str();
    fo["d"] = prettyName(F.getName());
    fo["nounwind"] = F.doesNotThrow();
    fo["linkage"] = (int64_t)F.getLinkage();
    if (F.getSubprogram()) fo["sp"] = spRef(F.getSubprogram());
    json::Array args;
    for (auto &A : F.args()) {
        json::Object ao;
        ao["n"] = A.getName().str();
        ao["ty"] = tyStr(A.getType());
        if (A.hasStructRetAttr()) ao["sret"] = true;
        if (A.hasByValAttr()) ao["byval"] = true;
        args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    // debug variables
    std::map<const Value *, std::vector<std::pair<std::string, const DIType *>>> vars;
    for (auto &I : instructions(F)) {
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
            if (D->getNumVariableLocationOps() != 1) continue;
            Value *V = D->getVariableLocationOp(0);
            if (!V) continue;
            auto *E = D->getExpression();
            bool decl = isa<DbgDeclareInst>(D);
            if (E->getNumElements() != 0) continue;
            std::string kind = decl ? "D:" : "V:";
            if (isa<Argument>(V) || isa<Instruction>(V))
                vars[V].push_back({kind + D->getVariable()->getName().str(), D->getVariable()->getType()});
        }
    }
    json::Object dv;
    for (auto &kv : vars) {
        std::string key = isa<Argument>(kv.first) ? "a" + std::to_string(cast<Argument>(kv.first)->getArgNo())
                                                  : "v" + std::to_string(ids[kv.first]);
        json::Array l;
        std::set<std::pair<std::string, int>> seen;
        for (auto &p : kv.second) {
            int t = typeRef(p.second);
            if (!seen.insert({p.first, t}).second) continue;
            json::Array e; e.push_back(p.first); e.push_back(t); l.push_back(std::move(e));
        }
        dv[key] = std::move(l);
    }
    fo["vars"] = std::move(dv);
    json::Array blocks;
    for (auto &BB : F) {
        json::Array ins;
        for (auto &I : BB) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (auto *II = dyn_cast<IntrinsicInst>(&I))
                if (II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::assume ||
                    II->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl)
                    continue;
            json::Object o;
            o["i"] = ids[&I];
            o["ty"] = tyStr(I.getType());
            if (I.getDebugLoc()) o["l"] = locRef(I.getDebugLoc().get());
            if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                o["op"] = "gep";
                MapVector<Value *, APInt> vo;
                APInt c(64, 0);
                if (G->collectOffset(*DLp, 64, vo, c)) {
                    o["base"] = operand(G->getPointerOperand(), ids);
                    o["off"] = c.getSExtValue();
                    json::Array va;
                    for (auto &p : vo) {
                        json::Array e; e.push_back(operand(p.first, ids)); e.push_back(p.second.getSExtValue());
                        va.push_back(std::move(e));
                    }
                    o["var"] = std::move(va);
                }
            } else if (auto *L = dyn_cast<LoadInst>(&I)) {
                o["op"] = "load"; o["p"] = operand(L->getPointerOperand(), ids);
                o["sz"] = (int64_t)DLp->getTypeStoreSize(L->getType());
                if (L->isAtomic()) o["ord"] = (int64_t)L->getOrdering();
            } else if (auto *S = dyn_cast<StoreInst>(&I)) {
                o["op"] = "store"; o["p"] = operand(S->getPointerOperand(), ids); o["v"] = operand(S->getValueOperand(), ids);
                o["sz"] = (int64_t)DLp->getTypeStoreSize(S->getValueOperand()->getType());
                if (S->isAtomic()) o["ord"] = (int64_t)S->getOrdering();
            } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
                o["op"] = "alloca"; o["aty"] = tyStr(A->getAllocatedType());
                if (auto s = A->getAllocationSize(*DLp)) o["sz"] = (int64_t)s->getFixedValue();
            } else if (auto *C = dyn_cast<ICmpInst>(&I)) {
                o["op"] = "icmp"; o["pred"] = ICmpInst::getPredicateName(C->getPredicate()).str();
                o["x"] = operand(C->getOperand(0), ids); o["y"] = operand(C->getOperand(1), ids);
                o["oty"] = tyStr(C->getOperand(0)->getType());
            } else if (auto *P = dyn_cast<PHINode>(&I)) {
                o["op"] = "phi";
                json::Array in;
                for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
                    json::Array e; e.push_back(operand(P->getIncomingValue(k), ids)); e.push_back(ids[P->getIncomingBlock(k)]);
                    in.push_back(std::move(e));
                }
                o["in"] = std::move(in);
            } else if (auto *B = dyn_cast<BranchInst>(&I)) {
                o["op"] = "br";
                if (B->isConditional()) o["c"] = operand(B->getCondition(), ids);
                json::Array s; for (unsigned k = 0; k < B->getNumSuccessors(); k++) s.push_back(ids[B->getSuccessor(k)]);   // true target first
                o["s"] = std::move(s);
            } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
                o["op"] = "switch"; o["c"] = operand(S->getCondition(), ids); o["def"] = ids[S->getDefaultDest()];
                json::Array cs;
                for (auto &c : S->cases()) {
                    json::Array e; e.push_back(c.getCaseValue()->getSExtValue()); e.push_back(ids[c.getCaseSuccessor()]);
                    cs.push_back(std::move(e));
                }
                o["cases"] = std::move(cs);
            } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                o["op"] = isa<InvokeInst>(CB) ? "invoke" : "call";
                if (Function *CF = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
                    o["callee"] = CF->getName().str(); usedFns.insert(CF);
                } else if (CB->isInlineAsm()) o["callee"] = "asm";
                else o["ind"] = operand(CB->getCalledOperand(), ids);
                if (CB->doesNotThrow()) o["nt"] = true;
                if (CB->doesNotReturn()) o["nr"] = true;
                json::Array as;
                for (auto &A : CB->args()) as.push_back(operand(A.get(), ids));
                o["args"] = std::move(as);
                if (CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet)) o["sret"] = true;
                if (auto *IV = dyn_cast<InvokeInst>(CB)) { o["s"] = json::Array{ids[IV->getNormalDest()], ids[IV->getUnwindDest()]}; }
            } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
                o["op"] = "lpad"; o["cleanup"] = LP->isCleanup();
                json::Array cl;
                for (unsigned k = 0; k < LP->getNumClauses(); k++) {
                    if (LP->isCatch(k)) cl.push_back(operand(LP->getClause(k), ids));
                    else cl.push_back(json::Array{"filter"});
                }
                o["cl"] = std::move(cl);
            } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
                o["op"] = "ev"; o["x"] = operand(EV->getAggregateOperand(), ids);
                json::Array ix; for (unsigned k : EV->indices()) ix.push_back((int64_t)k);
                o["ix"] = std::move(ix);
            } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
                o["op"] = "iv"; o["x"] = operand(IV->getAggregateOperand(), ids); o["y"] = operand(IV->getInsertedValueOperand(), ids);
                json::Array ix; for (unsigned k : IV->indices()) ix.push_back((int64_t)k);
                o["ix"] = std::move(ix);
            } else if (auto *RM = dyn_cast<AtomicRMWInst>(&I)) {
                o["op"] = "rmw"; o["k"] = AtomicRMWInst::getOperationName(RM->getOperation()).str();
                o["p"] = operand(RM->getPointerOperand(), ids); o["v"] = operand(RM->getValOperand(), ids);
                o["ord"] = (int64_t)RM->getOrdering();
            } else if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) {
                o["op"] = "cmpxchg"; o["p"] = operand(CX->getPointerOperand(), ids);
                o["x"] = operand(CX->getCompareOperand(), ids); o["y"] = operand(CX->getNewValOperand(), ids);
                o["ord"] = (int64_t)CX->getSuccessOrdering(); o["ford"] = (int64_t)CX->getFailureOrdering();
            } else {
                o["op"] = I.getOpcodeName();
                json::Array ops;
                for (auto &U : I.operands()) ops.push_back(operand(U.get(), ids));
                o["ops"] = std::move(ops);
                if (auto *BO = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nuw"] = BO->hasNoUnsignedWrap(); o["nsw"] = BO->hasNoSignedWrap(); }
                if (auto *CI = dyn_cast<CastInst>(&I)) o["from"] = tyStr(CI->getSrcTy());
            }
            ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
    }
    fo["b"] = std::move(blocks);
    return fo;
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    {
        std::ifstream in(argv[2]);
        std::string line;
        while (std::getline(in, line)) {
            if (line.empty() || line[0] == '#') continue;
            size_t sp = line.find(' ');
            std::string k = line.substr(0, sp), v = line.substr(sp + 1);
                if (k == "keep" || k == "inline") rules.push_back({k == "keep", mk(v)});
            else if (k == "dump") dumps.push_back(mk(v));
            else if (k == "virt") {
                std::vector<std::string> p; size_t pos = 0, q;
                while ((q = v.find(" || ", pos)) != std::string::npos) { p.push_back(v.substr(pos, q - pos)); pos = q + 4; }
                p.push_back(v.substr(pos));
                if (p.size() != 4) { errs() << "bad virt line " << line << "\n"; return 2; }
                {
                    size_t pl = p[2].find('+');
                    long off = pl == std::string::npos ? -1 : std::stol(p[2].substr(pl + 1));
                    virts.push_back({p[0], mk(p[1]), (unsigned)std::stoi(p[2]), off, p[3]});
                }
            }
        }
    }
    LLVMContext Ctx;
    SMDiagnostic Err;
    auto M = parseIRFile(argv[1], Err, Ctx);
    if (!M) { Err.print("irx", errs()); return 2; }
    DLp = &M->getDataLayout();
    Simplifier S;
    std::set<Function *> toDump;
    std::vector<Function *> orig;
    for (auto &F : *M) if (!F.isDeclaration()) orig.push_back(&F);
    // clones with a fixed dynamic type
    std::vector<std::pair<Function *, FixedTy>> clones;
    std::map<Function *, std::string> alias;
    for (auto &V : virts) {
        auto *VT = M->getGlobalVariable(V.vt, true);
        if (!VT || !VT->hasInitializer()) { errs() << "irx: no vtable " << V.vt << "\n"; continue; }
        for (auto *F : orig)
            if (V.re->match(prettyName(F->getName())) && F->arg_size() > V.arg) {
                ValueToValueMapTy VM;
                Function *C = CloneFunction(F, VM);
                C->setName(V.tag + "@" + F->getName());
                C->setLinkage(GlobalValue::ExternalLinkage);
                C->setComdat(nullptr);
                clones.push_back({C, FixedTy{V.arg, V.off, VT}});
                toDump.insert(C);
                V.hits++;
            }
        if (!V.hits) errs() << "irx: virt " << V.tag << " matched nothing\n";
    }
    for (auto *F : orig) {
        std::string n = prettyName(F->getName());
        for (auto &d : dumps) if (d->match(n)) { toDump.insert(F); break; }
    }
    // bottom-up inlining over the SCCs of the call graph
    {
        CallGraph CG(*M);
        std::vector<std::vector<Function *>> order;
        for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
            std::vector<Function *> fs;
            for (auto *N : *it) if (Function *F = N->getFunction()) if (!F->isDeclaration()) fs.push_back(F);
            if (!fs.empty()) order.push_back(fs);
        }
        std::map<Function *, FixedTy> cl;
        for (auto &c : clones) cl[c.first] = c.second;
        for (auto &fs : order) {
            std::set<Function *> scc(fs.begin(), fs.end());
            for (auto *F : fs) {
                if (!wantInline(F) && !toDump.count(F)) continue;
                F->removeFnAttr(Attribute::NoInline);
                F->removeFnAttr(Attribute::OptimizeNone);
                if (cl.count(F)) continue;
                S.run(*F);
                if (inlineInto(*F, scc)) S.run(*F);
            }
        }
        for (auto &c : clones) {
            Function &F = *c.first;
            S.run(F);
            for (int i = 0; i < 8; i++) {
                bool ch = inlineInto(F, {});
                if (ch) S.run(F);
                bool dv = devirt(F, c.second);
                if (dv) S.run(F);
                if (!ch && !dv) break;
            }
        }
    }
    json::Object out;
    json::Array fns;
    for (auto &F : *M) if (toDump.count(&F)) fns.push_back(dumpFunction(F));
    // globals
    std::map<const Value *, int> none;
    json::Object gl;
    for (auto &G : M->globals()) {
        std::string n = G.getName().str();
        bool vt = n.rfind("_ZTV", 0) == 0 || n.rfind("_ZTI", 0) == 0;
        json::Object go;
        go["d"] = demangle(n);
        go["const"] = G.isConstant();
        go["tls"] = G.isThreadLocal();
        go["ext"] = G.isDeclaration();
        go["sz"] = (int64_t)(G.getValueType()->isSized() ? DLp->getTypeAllocSize(G.getValueType()) : TypeSize::getFixed(0));
        SmallVector<DIGlobalVariableExpression *, 1> dbg;
        G.getDebugInfo(dbg);
        if (!dbg.empty()) {
            go["n"] = dbg[0]->getVariable()->getName().str();
            go["t"] = typeRef(dbg[0]->getVariable()->getType());
            go["scope"] = scopeName(dbg[0]->getVariable()->getScope());
            go["f"] = fileOf(dbg[0]->getVariable());
            go["l"] = (int64_t)dbg[0]->getVariable()->getLine();
        }
        if (G.hasInitializer()) {
            const Constant *I = G.getInitializer();
            if (auto *CD = dyn_cast<ConstantDataSequential>(I)) {
                if (CD->isString()) {
                    std::string hex; for (unsigned char ch : CD->getAsString()) { char b[3]; snprintf(b, 3, "%02x", ch); hex += b; }
                    go["str"] = hex;
                } else { json::Array a; for (unsigned k = 0; k < CD->getNumElements(); k++) if (CD->getElementType()->isIntegerTy()) a.push_back((int64_t)CD->getElementAsInteger(k)); go["ints"] = std::move(a); }
            } else if (I->isNullValue()) go["zero"] = true;
            else {
                // flatten to (offset, operand)
                json::Array flat;
                std::function<void(const Constant *, uint64_t)> rec = [&](const Constant *C, uint64_t off) {
                    if (auto *CS = dyn_cast<ConstantStruct>(C)) {
                        auto *SL = DLp->getStructLayout(CS->getType());
                        for (unsigned k = 0; k < CS->getNumOperands(); k++) rec(CS->getOperand(k), off + SL->getElementOffset(k));
                    } else if (auto *CA = dyn_cast<ConstantArray>(C)) {
                        uint64_t es = DLp->getTypeAllocSize(CA->getType()->getElementType());
                        for (unsigned k = 0; k < CA->getNumOperands(); k++) rec(CA->getOperand(k), off + k * es);
                    } else {
                        json::Array e; e.push_back((int64_t)off); e.push_back(operand(C, none)); flat.push_back(std::move(e));
                    }
                };
                rec(I, 0);
                go["init"] = std::move(flat);
            }
        }
        (void)vt;
        gl[n] = std::move(go);
    }
    json::Object ufn;
    for (auto &F : *M) {
        json::Object o;
        o["d"] = prettyName(F.getName());
        o["def"] = !F.isDeclaration();
        o["nt"] = F.doesNotThrow();
        o["nr"] = F.doesNotReturn();
        if (F.getSubprogram()) o["sp"] = spRef(F.getSubprogram());
        if (toDump.count(&F)) o["dump"] = true;
        o["linkage"] = (int64_t)F.getLinkage();
        ufn[F.getName()] = std::move(o);
    }
    out["fns"] = std::move(fns);
    out["decls"] = std::move(ufn);
    out["globals"] = std::move(gl);
    json::Array tys;
    // retained types (every class of the program), then everything reachable
    DebugInfoFinder Fi;
    Fi.processModule(*M);
    for (auto *T : Fi.types()) if (isa<DICompositeType>(T)) typeRef(T);
    for (size_t k = 0; k < tyList.size(); k++) tys.push_back(typeJson(tyList[k]));
    out["types"] = std::move(tys);
    json::Array la; for (auto &l : locOut) la.push_back(std::move(l));
    out["locs"] = std::move(la);
    json::Array sa; for (auto &s : spOut) sa.push_back(std::move(s));
    out["sps"] = std::move(sa);
    std::error_code EC;
    raw_fd_ostream os(argv[3], EC);
    if (EC) return 2;
    os << json::Value(std::move(out));
    return 0;
}
