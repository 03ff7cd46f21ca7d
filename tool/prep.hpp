// Module preparation shared by the analyses: choose roots, turn the vocabulary opaque,
// inline the rest, simplify.
#pragma once
#include "common.hpp"
#include <llvm/Analysis/InlineCost.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Inliner.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>

inline void runPipeline(Module& M, bool full) {
    PipelineTuningOptions pto;
    pto.LoopUnrolling = false;
    pto.LoopVectorization = false;
    pto.SLPVectorization = false;
    pto.LoopInterleaving = false;
    pto.InlinerThreshold = 100000;
    pto.MergeFunctions = false;
    PassBuilder PB(nullptr, pto);
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if(full)
        MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2);
    else if(auto e = PB.parsePassPipeline(
                MPM, "globaldce,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,sccp,bdce,simplifycfg,jump-threading,"
                     "correlated-propagation,simplifycfg,instcombine<no-verify-fixpoint>,gvn,sccp,adce,simplifycfg,instcombine<no-verify-fixpoint>,early-cse,simplifycfg)")) {
        errs() << "bad pipeline: " << toString(std::move(e)) << "\n";
        exit(3);
    }
    MPM.run(M, MAM);
}
// inline every remaining call of a defined, non-recursive function
inline bool inlineRest(Module& M) {
    bool ever = false;
    for(unsigned round = 0; round < 12; ++round) {
        bool any = false;
        std::vector<CallBase*> work;
        for(auto& F : M) {
            if(F.hasLocalLinkage() || F.isDeclaration())
                continue;  // only into the roots
            for(auto& I : instructions(F))
                if(auto cb = dyn_cast<CallBase>(&I))
                    if(auto c = calledFn(*cb); c && c != &F && c->hasLocalLinkage() && !c->isDeclaration()) {
                        bool self = false;
                        for(auto& J : instructions(*c))
                            if(auto cj = dyn_cast<CallBase>(&J); cj && calledFn(*cj) == c)
                                self = true;
                        if(!self)
                            work.push_back(cb);
                    }
        }
        if(work.size() > 4000)
            break;
        for(auto cb : work) {
            InlineFunctionInfo ifi;
            any |= InlineFunction(*cb, ifi).isSuccess();
        }
        ever |= any;
        if(!any)
            break;
    }
    return ever;
}
inline void simplify(Module& M) {
    runPipeline(M, false);
    inlineRest(M);
    runPipeline(M, false);
}

struct OpaqueRule {
    Re re;
    std::string eff;
};

// returns the mangled names of the roots
inline std::vector<std::string> prepare(Module& M, const json::Object& spec) {
    {
        std::vector<GlobalAlias*> as;
        for(auto& a : M.aliases())
            as.push_back(&a);
        for(auto a : as) {
            a->replaceAllUsesWith(a->getAliasee());
            a->eraseFromParent();
        }
    }
    Re rootRe(spec.getString("root")->str());
    std::optional<Re> rootFull;
    if(auto s = spec.getString("root_full"))
        rootFull.emplace(s->str());
    std::vector<OpaqueRule> rules;
    if(auto a = spec.getArray("opaque"))
        for(auto& v : *a) {
            if(auto s = v.getAsString())
                rules.push_back({ Re(s->str()), "any" });
            else {
                auto o = v.getAsObject();
                rules.push_back({ Re(o->getString("re")->str()), o->getString("eff").value_or("any").str() });
            }
        }
    std::vector<std::string> roots;
    for(auto& F : M) {
        if(F.isDeclaration())
            continue;
        if(rootRe(qualName(F)) && (!rootFull || (*rootFull)(fullName(F.getName()))))
            roots.push_back(F.getName().str());
    }
    std::set<std::string> rootSet(roots.begin(), roots.end());
    for(auto& F : M) {
        if(F.isIntrinsic())
            continue;
        if(rootSet.count(F.getName().str())) {
            F.setLinkage(GlobalValue::ExternalLinkage);
            F.setComdat(nullptr);
            continue;
        }
        const auto& qn = qualName(F);
        bool opaque = F.isDeclaration();
        for(auto& r : rules)
            if(r.re(qn)) {
                if(!F.isDeclaration()) {
                    F.deleteBody();
                    F.setComdat(nullptr);
                }
                opaque = true;
                F.removeFnAttr(Attribute::AlwaysInline);
                if(r.eff == "none") {
                    F.setMemoryEffects(MemoryEffects::none());
                    F.addFnAttr(Attribute::WillReturn);
                } else if(r.eff == "read") {
                    F.setMemoryEffects(MemoryEffects::readOnly());
                    F.addFnAttr(Attribute::WillReturn);
                } else if(r.eff == "noreturn") {
                    F.addFnAttr(Attribute::NoReturn);
                }
                F.removeFnAttr(Attribute::Speculatable);
                break;
            }
        if(opaque)
            F.addFnAttr(Attribute::NoUnwind);
        if(!F.isDeclaration()) {
            F.setLinkage(GlobalValue::InternalLinkage);
            F.setComdat(nullptr);
            F.removeFnAttr(Attribute::NoInline);
        }
    }
    // exceptions are not modelled: calls do not unwind
    for(auto& F : M)
        for(auto& I : instructions(F))
            if(auto cb = dyn_cast<CallBase>(&I))
                cb->setDoesNotThrow();
    // drop global ctors and ifuncs so that globaldce can work
    for(auto name : { "llvm.global_ctors", "llvm.global_dtors", "llvm.used", "llvm.compiler.used" })
        if(auto g = M.getNamedGlobal(name))
            g->eraseFromParent();
    for(auto& G : M.globals())
        if(!G.isDeclaration() && !G.hasLocalLinkage()) {
            G.setLinkage(GlobalValue::InternalLinkage);
            G.setComdat(nullptr);
            // contents of mutable globals are not assumed
            if(!G.isConstant() && !spec.getBoolean("assume_globals").value_or(false))
                G.setExternallyInitialized(true);
        } else if(!G.isDeclaration() && !G.isConstant()) {
            G.setExternallyInitialized(true);
        }
    if(verifyModule(M, &errs())) {
        errs() << "module invalid after preparation\n";
        exit(3);
    }
    runPipeline(M, true);
    runPipeline(M, false);
    std::vector<std::string> alive;
    for(auto& r : roots)
        if(M.getFunction(r))
            alive.push_back(r);
    return alive;
}
