// irx: whole-program IR normaliser and dumper.
//
//   irx IN.bc PRIMS.txt OUT.json [entry-regex...]
//
// Reads LLVM IR straight from clang (no optimisation passes run), turns the
// functions matched by PRIMS into opaque primitives, inlines everything else,
// promotes memory to SSA and dumps the functions whose (demangled) name
// matches one of the entry regexes as JSON.  Nothing is executed.
//
// PRIMS.txt: lines  "KIND <tab> regex over the demangled name"
//   KIND = keep           leave calls to it alone (call event with demangled name)
//   KIND = rename NAME    as keep, and call it NAME
//   KIND = byval NAME     the first argument points at a one-pointer object (a coroutine
//                         handle): rewritten to  call @NAME(load ptr, arg0, rest...)
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Scalar/ConstantHoisting.h"
#include "llvm/Transforms/Scalar/Reg2Mem.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/CallGraphSCCPass.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Transforms/Utils/Local.h"
#include <regex>
#include <fstream>
#include <map>
#include <set>
using namespace llvm;

struct Prim { std::string kind, name; std::regex re; };
static std::map<const Function*, std::string> gDem;
static std::string dem(const Function& F) {
    auto it = gDem.find(&F);
    if (it != gDem.end()) return it->second;
    return gDem[&F] = demangle(F.getName().str());
}

static void simplify(Module& M, bool final) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    FunctionPassManager FPM;
    SimplifyCFGOptions SO; SO.convertSwitchRangeToICmp(true).hoistCommonInsts(false).sinkCommonInsts(false).speculateBlocks(false);
    for (int i = 0; i < (final ? 3 : 1); ++i) {
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(EarlyCSEPass());
        FPM.addPass(SCCPPass());
        FPM.addPass(SimplifyCFGPass(SO));
        FPM.addPass(InstCombinePass(InstCombineOptions().setMaxIterations(2).setVerifyFixpoint(false)));
        FPM.addPass(SimplifyCFGPass(SO));
        FPM.addPass(ADCEPass());
    }
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(M, MAM);
}
static void inlineAll(Module& M) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(AlwaysInlinerPass(true));
    MPM.addPass(GlobalDCEPass());
    MPM.run(M, MAM);
}

static bool isEntry(const Function& F, const std::vector<std::regex>& es) {
    if (F.isDeclaration()) return false;
    std::string d = dem(F);
    for (auto& r : es) if (std::regex_search(d, r) || (F.isPresplitCoroutine() && std::regex_search("coro:" + d, r))) return true;
    return false;
}

// ---- dumping ----
static std::map<const Value*, int> gNum;
static int num(const Value* v) { auto it = gNum.find(v); if (it != gNum.end()) return it->second; int n = gNum.size(); return gNum[v] = n; }
static const DataLayout* DL;

static json::Value constant(const Constant* C) {
    if (auto* CI = dyn_cast<ConstantInt>(C)) {
        if (CI->getBitWidth() <= 64) return json::Object{{"k","c"},{"v",(int64_t)CI->getSExtValue()},{"w",(int64_t)CI->getBitWidth()}};
        SmallString<64> s; CI->getValue().toStringSigned(s); return json::Object{{"k","big"},{"v",std::string(s.str())}};
    }
    if (isa<ConstantPointerNull>(C)) return json::Object{{"k","c"},{"v",0},{"w",64},{"null",true}};
    if (isa<UndefValue>(C)) return json::Object{{"k","undef"}};
    if (auto* G = dyn_cast<GlobalValue>(C)) {
        json::Object o{{"k","g"},{"n",G->getName().str()}};
        if (auto* F = dyn_cast<Function>(C)) o["d"] = dem(*F);
        return o;
    }
    if (auto* GE = dyn_cast<GEPOperator>(C)) {
        APInt off(DL->getIndexSizeInBits(0), 0);
        if (GE->accumulateConstantOffset(*DL, off))
            return json::Object{{"k","cgep"},{"b",constant(cast<Constant>(GE->getPointerOperand()))},{"o",off.getSExtValue()}};
    }
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
        json::Array a; for (auto& o : CE->operands()) a.push_back(constant(cast<Constant>(o.get())));
        return json::Object{{"k","cexpr"},{"op",CE->getOpcodeName()},{"a",std::move(a)}};
    }
    if (isa<ConstantAggregateZero>(C)) return json::Object{{"k","zero"}};
    if (auto* CA = dyn_cast<ConstantAggregate>(C)) {
        json::Array a; for (auto& o : CA->operands()) a.push_back(constant(cast<Constant>(o.get())));
        return json::Object{{"k","agg"},{"a",std::move(a)}};
    }
    std::string s; raw_string_ostream os(s); C->printAsOperand(os); return json::Object{{"k","other"},{"s",os.str()}};
}
static json::Value operand(const Value* V) {
    if (auto* C = dyn_cast<Constant>(V)) return constant(C);
    if (auto* A = dyn_cast<Argument>(V)) return json::Object{{"k","a"},{"i",(int64_t)A->getArgNo()}};
    if (auto* M = dyn_cast<MetadataAsValue>(V)) { (void)M; return json::Object{{"k","md"}}; }
    if (isa<InlineAsm>(V)) return json::Object{{"k","asm"}};
    if (V->getType()->isTokenTy() && !isa<Instruction>(V)) return json::Object{{"k","tok"}};
    return json::Object{{"k","v"},{"n",num(V)}};
}
static std::string ordn(AtomicOrdering o) { return toIRString(o); }
static json::Value loc(const Instruction& I) {
    json::Array a;
    const DILocation* L = I.getDebugLoc();
    while (L) {
        std::string fn; if (auto* S = L->getScope()->getSubprogram()) fn = S->getLinkageName().empty() ? S->getName().str() : S->getLinkageName().str();
        a.push_back(json::Array{L->getFilename().str(), (int64_t)L->getLine(), fn});
        L = L->getInlinedAt();
    }
    return a;
}
static int64_t tsize(Type* T) { return T->isSized() ? (int64_t)DL->getTypeStoreSize(T).getFixedValue() : 0; }
static std::string tname(Type* T) { if (T->isPointerTy()) return "ptr"; std::string s; raw_string_ostream os(s); T->print(os); return os.str(); }

static json::Value dumpFn(Function& F) {
    gNum.clear();
    std::map<const BasicBlock*, int> bn; int k = 0;
    for (auto& B : F) bn[&B] = k++;
    json::Array blocks;
    for (auto& B : F) {
        json::Array ins;
        for (auto& I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            json::Object o; o["op"] = I.getOpcodeName();
            if (!I.getType()->isVoidTy()) { o["id"] = num(&I); o["t"] = tname(I.getType()); }
            auto l = loc(I); if (l.getAsArray() && !l.getAsArray()->empty()) o["loc"] = std::move(l);
            json::Array ops;
            if (auto* CB = dyn_cast<CallBase>(&I)) {
                for (auto& a : CB->args()) ops.push_back(operand(a.get()));
                o["a"] = std::move(ops);
                const Value* cv = CB->getCalledOperand()->stripPointerCasts();
                if (auto* CF = dyn_cast<Function>(cv)) {
                    o["callee"] = CF->getName().str(); o["dem"] = dem(*CF);
                    o["nounwind"] = CB->doesNotThrow(); o["noreturn"] = CB->doesNotReturn();
                    if (CF->isPresplitCoroutine()) o["coro"] = true;
                } else { o["callee"] = ""; o["target"] = operand(cv); o["nounwind"] = CB->doesNotThrow(); }
                // sret / memory attributes
                json::Array sr; for (unsigned i = 0; i < CB->arg_size(); ++i) if (CB->paramHasAttr(i, Attribute::StructRet)) sr.push_back((int64_t)i);
                if (!sr.empty()) o["sret"] = std::move(sr);
                if (auto* IV = dyn_cast<InvokeInst>(&I)) { o["normal"] = bn[IV->getNormalDest()]; o["unwind"] = bn[IV->getUnwindDest()]; }
                if (auto* MI = dyn_cast<MemIntrinsic>(&I)) (void)MI;
            } else if (auto* P = dyn_cast<PHINode>(&I)) {
                for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
                    ops.push_back(json::Array{bn[P->getIncomingBlock(i)], operand(P->getIncomingValue(i))});
                o["a"] = std::move(ops);
            } else if (auto* Br = dyn_cast<BranchInst>(&I)) {
                if (Br->isConditional()) { o["a"] = json::Array{operand(Br->getCondition())}; o["s"] = json::Array{bn[Br->getSuccessor(0)], bn[Br->getSuccessor(1)]}; }
                else { o["a"] = json::Array{}; o["s"] = json::Array{bn[Br->getSuccessor(0)]}; }
            } else if (auto* Sw = dyn_cast<SwitchInst>(&I)) {
                o["a"] = json::Array{operand(Sw->getCondition())};
                json::Array cs; for (auto& c : Sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bn[c.getCaseSuccessor()]});
                o["cases"] = std::move(cs); o["default"] = bn[Sw->getDefaultDest()];
            } else {
                for (auto& a : I.operands()) { if (isa<BasicBlock>(a.get())) ops.push_back(bn[cast<BasicBlock>(a.get())]); else ops.push_back(operand(a.get())); }
                o["a"] = std::move(ops);
                if (auto* L = dyn_cast<LoadInst>(&I)) { o["ord"] = ordn(L->getOrdering()); o["sz"] = tsize(L->getType()); o["vol"] = L->isVolatile(); }
                if (auto* S = dyn_cast<StoreInst>(&I)) { o["ord"] = ordn(S->getOrdering()); o["sz"] = tsize(S->getValueOperand()->getType()); }
                if (auto* R = dyn_cast<AtomicRMWInst>(&I)) { o["ord"] = ordn(R->getOrdering()); o["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str(); o["sz"] = tsize(R->getType()); }
                if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) { o["ord"] = ordn(X->getSuccessOrdering()); o["ford"] = ordn(X->getFailureOrdering()); o["weak"] = X->isWeak(); o["sz"] = tsize(X->getNewValOperand()->getType()); }
                if (auto* Fe = dyn_cast<FenceInst>(&I)) o["ord"] = ordn(Fe->getOrdering());
                if (auto* C = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str(); }
                if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
                    APInt off(DL->getIndexSizeInBits(0), 0);
                    if (G->accumulateConstantOffset(*DL, off)) o["off"] = off.getSExtValue();
                    else {
                        MapVector<Value*, APInt> vo; APInt co(DL->getIndexSizeInBits(0), 0);
                        if (G->collectOffset(*DL, DL->getIndexSizeInBits(0), vo, co)) {
                            o["off"] = co.getSExtValue(); json::Array vs;
                            for (auto& p : vo) vs.push_back(json::Array{operand(p.first), p.second.getSExtValue()});
                            o["var"] = std::move(vs);
                        }
                    }
                }
                if (auto* A = dyn_cast<AllocaInst>(&I)) { o["sz"] = tsize(A->getAllocatedType()); o["ty"] = tname(A->getAllocatedType()); }
                if (auto* E = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : E->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
                if (auto* E = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : E->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
                if (auto* LP = dyn_cast<LandingPadInst>(&I)) {
                    o["cleanup"] = LP->isCleanup(); json::Array cl;
                    for (unsigned i = 0; i < LP->getNumClauses(); ++i) cl.push_back(constant(LP->getClause(i)));
                    o["clauses"] = std::move(cl);
                }
                o["st"] = I.getNumOperands() ? tname(I.getOperand(0)->getType()) : "";
            }
            ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
    }
    json::Array args;
    for (auto& A : F.args()) { json::Object o{{"t", tname(A.getType())},{"n",A.getName().str()}}; if (A.hasStructRetAttr()) o["sret"] = true; args.push_back(std::move(o)); }
    std::string file; int line = 0; if (auto* S = F.getSubprogram()) { file = S->getFilename().str(); line = S->getLine(); }
    return json::Object{{"name",F.getName().str()},{"dem",dem(F)},{"coro",F.isPresplitCoroutine()},{"args",std::move(args)},{"ret",tname(F.getReturnType())},
        {"nounwind",F.doesNotThrow()},{"file",file},{"line",line},{"blocks",std::move(blocks)}};
}

int main(int argc, char** argv) {
    if (argc < 5) { errs() << "usage: irx IN PRIMS OUT entry-regex...\n"; return 2; }
    LLVMContext Ctx; SMDiagnostic Err;
    auto M = parseIRFile(argv[1], Err, Ctx);
    if (!M) { Err.print("irx", errs()); return 2; }
    DL = &M->getDataLayout();
    for (auto& A : M->aliases()) if (auto* F = dyn_cast<Function>(A.getAliasee()->stripPointerCasts())) A.replaceAllUsesWith(F);
    std::vector<Prim> prims; std::ifstream pf(argv[2]); std::string line;
    while (std::getline(pf, line)) {
        if (line.empty() || line[0] == '#') continue;
        auto t = line.find('\t'); std::string k = line.substr(0, t), r = line.substr(t + 1), n;
        auto sp = k.find(' '); if (sp != std::string::npos) { n = k.substr(sp + 1); k = k.substr(0, sp); }
        prims.push_back({k, n, std::regex(r, std::regex::optimize)});
    }
    std::vector<std::regex> es; for (int i = 4; i < argc; ++i) es.emplace_back(argv[i], std::regex::optimize);

    std::set<std::string> taken; std::set<Function*> keep; std::map<std::string, int64_t> primHits;
    std::vector<std::pair<Function*, Prim*>> byval, renames;
    for (auto& F : *M) {
        if (F.isIntrinsic()) continue;
        std::string d = dem(F);
        for (auto& p : prims) if (std::regex_search(d, p.re)) {
            primHits[p.kind + " " + p.name]++;
            if (p.kind == "byval") byval.push_back({&F, &p}); 
            if (p.kind == "rename") renames.push_back({&F, &p});
            keep.insert(&F);
            break;
        }
    }
    for (auto& [F, p] : byval) {
        std::vector<User*> us(F->user_begin(), F->user_end());
        for (auto* u : us) if (auto* CB = dyn_cast<CallBase>(u)) {
            if (CB->getCalledFunction() != F) continue;
            unsigned h = F->hasStructRetAttr() ? 1 : 0;
            if (CB->arg_size() <= h || !CB->getArgOperand(h)->getType()->isPointerTy()) continue;
            IRBuilder<> B(CB);
            Value* v = B.CreateLoad(PointerType::get(Ctx, 0), CB->getArgOperand(h));
            std::vector<Value*> as; std::vector<Type*> ts;
            for (unsigned i = 0; i < CB->arg_size(); ++i) { Value* a = i == h ? v : CB->getArgOperand(i); as.push_back(a); ts.push_back(a->getType()); }
            auto* FT = FunctionType::get(CB->getType(), ts, false);
            auto FC = M->getOrInsertFunction(p->name, FT);
            // several signatures may share a name; make the name unique by type
            Value* callee = FC.getCallee();
            if (!isa<Function>(callee) || cast<Function>(callee)->getFunctionType() != FT) {
                std::string nn = p->name + "." + std::to_string(ts.size()) + (CB->getType()->isVoidTy() ? "v" : "r");
                FC = M->getOrInsertFunction(nn, FT); callee = FC.getCallee();
            }
            CallBase* N;
            if (auto* IV = dyn_cast<InvokeInst>(CB)) N = B.CreateInvoke(FT, callee, IV->getNormalDest(), IV->getUnwindDest(), as);
            else N = B.CreateCall(FT, callee, as);
            N->setDebugLoc(CB->getDebugLoc());
            if (CB->doesNotThrow()) N->setDoesNotThrow();
            CB->replaceAllUsesWith(N);
            if (!CB->getType()->isVoidTy()) N->takeName(CB);
            CB->eraseFromParent();
        }
    }
    for (auto& [F, p] : renames) F->setName(p->name);
    // which functions may be inlined
    std::set<Function*> entries;
    for (auto& F : *M) if (isEntry(F, es)) entries.insert(&F);
    // "@taken": functions that are called through pointers are looked at on their own
    for (int i = 4; i < argc; ++i) if (StringRef(argv[i]) == "@taken")
        for (auto& F : *M) if (!F.isDeclaration() && !keep.count(&F) && !F.isPresplitCoroutine() && F.hasAddressTaken()) { entries.insert(&F); taken.insert(F.getName().str()); }
    std::set<Function*> recursive;
    {
        CallGraph CG(*M);
        for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
            if (it.hasCycle()) for (auto* n : *it) if (n->getFunction()) recursive.insert(n->getFunction());
        }
    }
    std::set<std::string> recNames; for (auto* F : recursive) recNames.insert(dem(*F));
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline);
        F.removeFnAttr(Attribute::MustProgress);
        F.setComdat(nullptr);
        if (entries.count(&F)) { F.setLinkage(GlobalValue::ExternalLinkage); F.addFnAttr(Attribute::NoInline); continue; }
        if (keep.count(&F)) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); continue; }
        if (F.hasAvailableExternallyLinkage() || true) { F.setLinkage(GlobalValue::InternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); F.setDSOLocal(true); }
        if (F.isPresplitCoroutine()) { F.addFnAttr(Attribute::NoInline); continue; }
        if (recursive.count(&F)) { F.addFnAttr(Attribute::NoInline); continue; }
        F.addFnAttr(Attribute::AlwaysInline);
    }
    // drop attributes that let passes assume too much
    for (auto& G : M->globals()) { if (!G.isDeclaration() && !G.hasAppendingLinkage() && G.hasLinkOnceLinkage()) { G.setComdat(nullptr); G.setLinkage(GlobalValue::InternalLinkage);} }
    for (int r = 0; r < 3; ++r) { inlineAll(*M); simplify(*M, r == 2); }
    json::Array fns; int64_t ninstr = 0;
    for (auto& F : *M) if (!F.isDeclaration() && (isEntry(F, es) || taken.count(F.getName().str()))) { for (auto& B : F) ninstr += B.size(); fns.push_back(dumpFn(F)); }
    json::Array rec; for (auto& n : recNames) rec.push_back(n);
    json::Object hits; for (auto& [k, v] : primHits) hits[k] = v;
    json::Object out{{"functions",std::move(fns)},{"instructions",ninstr},{"recursive",std::move(rec)},{"prims",std::move(hits)}};
    std::error_code EC; raw_fd_ostream os(argv[3], EC); if (EC) { errs() << EC.message(); return 2; }
    os << json::Value(std::move(out));
    if (getenv("IRX_LL")) { raw_fd_ostream l(getenv("IRX_LL"), EC); M->print(l, nullptr); }
    return 0;
}
