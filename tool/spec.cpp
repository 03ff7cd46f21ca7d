// `spec`: partial evaluation of one function over a finite set of seeds.
// The functions named as opaque keep no body (they are the vocabulary in which the
// result is expressed); everything else reachable is inlined. For each query the calls
// named by a seed are replaced by a constant, constants are propagated and dead paths are
// removed, and what is left (returned values, sink calls and their argument expressions,
// reachable callees) is printed as a normal form.
#include "common.hpp"
#include "prep.hpp"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ValueTracking.h>

// branch conditions that hold whenever control reaches I: [term, 0/1] or [term, "=", value]
static void mustConds(Instruction& I, ExprPrinter& ep, DominatorTree& dt, json::OStream& J) {
    auto node = dt.getNode(I.getParent());
    if(!node)
        return;
    auto bb = I.getParent();
    for(auto n = node->getIDom(); n; n = n->getIDom()) {
        auto d = n->getBlock();
        auto t = d->getTerminator();
        // blocks from which I is reached before d is entered again
        std::set<const BasicBlock*> reach{ bb };
        std::vector<const BasicBlock*> work(pred_begin(bb), pred_end(bb));
        while(!work.empty()) {
            auto w = work.back();
            work.pop_back();
            if(w == d || !reach.insert(w).second)
                continue;
            for(auto q : predecessors(w))
                work.push_back(q);
        }
        auto emit = [&](const std::string& cond, int v) {
            J.array([&] {
                J.value(cond);
                J.value(v);
            });
        };
        if(auto br = dyn_cast<BranchInst>(t); br && br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1)) {
            auto r0 = reach.count(br->getSuccessor(0)), r1 = reach.count(br->getSuccessor(1));
            if(r0 != r1)
                emit(ep.str(br->getCondition()), r0 ? 1 : 0);
        } else if(auto sw = dyn_cast<SwitchInst>(t)) {
            auto eq = [&](auto& c) {
                return "(icmp-eq:64 " + std::to_string(c.getCaseValue()->getSExtValue()) + " " + ep.str(sw->getCondition()) + ")";
            };
            std::vector<std::string> in;
            for(auto& c : sw->cases()) {
                if(!reach.count(c.getCaseSuccessor()))
                    emit(eq(c), 0);
                else
                    in.push_back(eq(c));
            }
            if(!reach.count(sw->getDefaultDest()) && in.size() == 1)
                emit(in[0], 1);
        }
    }
}

static void printFunction(Function& F, const std::vector<Re>& sinkRes, json::OStream& J, bool wantConds) {
    ExprPrinter ep;
    DominatorTree dt(F);
    J.attributeArray("rets", [&] {
        for(auto& BB : F)
            if(auto r = dyn_cast<ReturnInst>(BB.getTerminator()); r && r->getReturnValue())
                J.value(ep.str(r->getReturnValue()));
    });
    unsigned nInst = 0;
    for(auto& BB : F)
        nInst += BB.size();
    J.attribute("insts", nInst);
    J.attributeArray("sinks", [&] {
        for(auto& I : instructions(F)) {
            auto cb = dyn_cast<CallBase>(&I);
            if(!cb || isa<DbgInfoIntrinsic>(cb))
                continue;
            auto fn = calledFn(*cb);
            std::string name = fn ? qualName(*fn) : "indirect";
            bool hit = false;
            for(auto& r : sinkRes)
                if(r(name)) {
                    hit = true;
                    break;
                }
            if(!hit)
                continue;
            J.object([&] {
                J.attribute("callee", name);
                J.attributeArray("args", [&] {
                    for(auto& a : cb->args())
                        J.value(ep.str(a));
                });
                J.attribute("loc", locOf(I));
                J.attribute("chain", locChain(I));
                J.attributeArray("must", [&] { mustConds(I, ep, dt, J); });
            });
        }
    });
    J.attributeArray("stores", [&] {
        for(auto& I : instructions(F))
            if(auto s = dyn_cast<StoreInst>(&I))
                J.array([&] {
                    J.value(ep.str(s->getPointerOperand()));
                    J.value(ep.str(s->getValueOperand()));
                });
    });
    J.attributeArray("calls", [&] {
        std::set<std::string> names;
        for(auto& I : instructions(F))
            if(auto cb = dyn_cast<CallBase>(&I)) {
                auto fn = calledFn(*cb);
                if(fn && fn->isIntrinsic() && fn->getName().starts_with("llvm.lifetime"))
                    continue;
                names.insert(fn ? qualName(*fn) : "indirect");
            }
        for(auto& n : names)
            J.value(n);
    });
    if(wantConds)
        J.attributeArray("conds", [&] {
            for(auto& BB : F)
                if(auto br = dyn_cast<BranchInst>(BB.getTerminator()); br && br->isConditional())
                    J.value(ep.str(br->getCondition()));
                else if(auto sw = dyn_cast<SwitchInst>(BB.getTerminator()))
                    J.value("switch " + ep.str(sw->getCondition()));
            for(auto& I : instructions(F))
                if(auto s = dyn_cast<SelectInst>(&I))
                    J.value("select " + ep.str(s->getCondition()));
        });
}

// the residual function as a decision tree: conditions, sink calls in order, returned value
struct TreePrinter {
    const std::vector<Re>& sinks;
    json::OStream& J;
    unsigned leaves = 0;
    ExprPrinter ep;
    std::set<const BasicBlock*> onPath;
    std::set<const BasicBlock*> keep;  // when not empty: blocks from which an event is reachable
    unsigned limit = 3000;
    void walk(const BasicBlock* from, const BasicBlock* bb) {
        J.objectBegin();
        if(!keep.empty() && !keep.count(bb)) {
            ++leaves;
            J.attribute("end", 1);
            J.objectEnd();
            return;
        }
        if(leaves > limit || onPath.count(bb)) {
            J.attribute("cut", onPath.count(bb) ? "loop" : "size");
            J.objectEnd();
            return;
        }
        auto savedEnv = ep.phiEnv;
        for(auto& p : bb->phis())
            if(from) {
                Value* v = p.getIncomingValueForBlock(from);
                // resolve through phis of the same block or earlier ones
                if(auto q = dyn_cast<PHINode>(v))
                    if(auto it = savedEnv.find(q); it != savedEnv.end())
                        v = it->second;
                ep.phiEnv[&p] = v;
            }
        onPath.insert(bb);
        J.attributeArray("ev", [&] {
            for(auto& I : *bb) {
                if(auto s = dyn_cast<StoreInst>(&I)) {
                    J.object([&] {
                        J.attribute("store", ep.str(s->getPointerOperand()));
                        J.attribute("val", ep.str(s->getValueOperand()));
                        J.attribute("loc", locOf(I));
                    });
                    continue;
                }
                auto cb = dyn_cast<CallBase>(&I);
                if(!cb || isa<DbgInfoIntrinsic>(cb))
                    continue;
                auto fn = calledFn(*cb);
                std::string name = fn ? qualName(*fn) : "indirect";
                for(auto& r : sinks)
                    if(r(name)) {
                        J.object([&] {
                            J.attribute("callee", name);
                            J.attributeArray("args", [&] {
                                for(auto& a : cb->args())
                                    J.value(ep.str(a));
                            });
                            J.attribute("loc", locOf(I));
                        });
                        break;
                    }
            }
        });
        auto t = bb->getTerminator();
        if(auto r = dyn_cast<ReturnInst>(t)) {
            ++leaves;
            J.attribute("ret", r->getReturnValue() ? ep.str(r->getReturnValue()) : "void");
        } else if(auto br = dyn_cast<BranchInst>(t)) {
            if(br->isUnconditional()) {
                J.attributeBegin("next");
                walk(bb, br->getSuccessor(0));
                J.attributeEnd();
            } else {
                J.attribute("cond", ep.str(br->getCondition()));
                J.attribute("loc", locOf(*br));
                J.attributeBegin("T");
                walk(bb, br->getSuccessor(0));
                J.attributeEnd();
                J.attributeBegin("F");
                walk(bb, br->getSuccessor(1));
                J.attributeEnd();
            }
        } else if(auto sw = dyn_cast<SwitchInst>(t)) {
            J.attribute("switch", ep.str(sw->getCondition()));
            J.attributeObject("cases", [&] {
                for(auto& c : sw->cases()) {
                    J.attributeBegin(std::to_string(c.getCaseValue()->getSExtValue()));
                    walk(bb, c.getCaseSuccessor());
                    J.attributeEnd();
                }
            });
            J.attributeBegin("default");
            walk(bb, sw->getDefaultDest());
            J.attributeEnd();
        } else {
            ++leaves;
            J.attribute("stop", 1);
        }
        onPath.erase(bb);
        ep.phiEnv = savedEnv;
        J.objectEnd();
    }
};

static std::string tyStr(Type* t) {
    std::string s;
    raw_string_ostream os(s);
    t->print(os);
    return os.str();
}

// the residual function as a graph for the abstract interpreter (lib/absint.py)
static void printCFG(Function& F, json::OStream& J) {
    ExprPrinter ep;
    ep.maxDepth = 60;
    auto& dl = F.getParent()->getDataLayout();
    std::map<const BasicBlock*, unsigned> ids;
    unsigned n = 0;
    for(auto& BB : F) {
        ids[&BB] = ids.size();
        for(auto& I : BB)
            if(isa<LoadInst>(I) || isa<CallBase>(I) || isa<PHINode>(I) || isa<AllocaInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
                if(auto ii = dyn_cast<IntrinsicInst>(&I); ii && ii->doesNotAccessMemory() && !isa<DbgInfoIntrinsic>(ii))
                    continue;
                if(auto l = dyn_cast<LoadInst>(&I); l && !ep.lookup(l, 0).empty())
                    continue;
                ep.names[&I] = "%" + std::to_string(n++);
            }
    }
    J.attribute("args", static_cast<int64_t>(F.arg_size()));
    J.attributeArray("blocks", [&] {
        for(auto& BB : F)
            J.object([&] {
                J.attributeArray("phi", [&] {
                    for(auto& p : BB.phis())
                        J.object([&] {
                            J.attribute("id", ep.names[&p]);
                            J.attributeObject("in", [&] {
                                std::set<unsigned> seen;
                                for(unsigned k = 0; k < p.getNumIncomingValues(); ++k)
                                    if(auto b = ids[p.getIncomingBlock(k)]; seen.insert(b).second)
                                        J.attribute(std::to_string(b), ep.str(p.getIncomingValue(k)));
                            });
                        });
                });
                J.attributeArray("ev", [&] {
                    for(auto& I : BB) {
                        if(isa<DbgInfoIntrinsic>(I) || isa<PHINode>(I))
                            continue;
                        auto loc = [&] { J.attribute("loc", locOf(I)); };
                        if(auto l = dyn_cast<LoadInst>(&I)) {
                            if(!ep.names.count(l))
                                continue;
                            J.object([&] {
                                J.attribute("ld", ep.names[l]);
                                J.attribute("ptr", ep.str(l->getPointerOperand()));
                                J.attribute("ty", tyStr(l->getType()));
                                J.attribute("size", static_cast<int64_t>(dl.getTypeStoreSize(l->getType())));
                            });
                        } else if(auto s = dyn_cast<StoreInst>(&I)) {
                            J.object([&] {
                                J.attribute("st", ep.str(s->getPointerOperand()));
                                J.attribute("val", ep.str(s->getValueOperand()));
                                J.attribute("size", static_cast<int64_t>(dl.getTypeStoreSize(s->getValueOperand()->getType())));
                                loc();
                            });
                        } else if(auto a = dyn_cast<AllocaInst>(&I)) {
                            J.object([&] {
                                J.attribute("alloca", ep.names[a]);
                                J.attribute("ty", tyStr(a->getAllocatedType()));
                            });
                        } else if(auto cb = dyn_cast<CallBase>(&I)) {
                            if(!ep.names.count(cb))
                                continue;
                            if(auto ii = dyn_cast<IntrinsicInst>(cb); ii && (ii->isLifetimeStartOrEnd() || ii->isAssumeLikeIntrinsic()))
                                continue;
                            J.object([&] {
                                auto fn = calledFn(*cb);
                                J.attribute("call", fn ? qualName(*fn) : "indirect");
                                if(fn)
                                    J.attribute("sig", fullName(fn->getName()));
                                J.attribute("id", ep.names[cb]);
                                J.attribute("ty", tyStr(cb->getType()));
                                if(!fn)
                                    J.attribute("fp", ep.str(cb->getCalledOperand()));
                                J.attributeArray("args", [&] {
                                    for(auto& x : cb->args())
                                        J.value(ep.str(x));
                                });
                                J.attribute("eff", cb->doesNotAccessMemory() ? "none" : cb->onlyReadsMemory() ? "read" : "any");
                                if(cb->doesNotReturn())
                                    J.attribute("noreturn", 1);
                                loc();
                            });
                        } else if(isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
                            auto rmw = dyn_cast<AtomicRMWInst>(&I);
                            J.object([&] {
                                J.attribute("call", rmw ? ("atomic." + AtomicRMWInst::getOperationName(rmw->getOperation())).str() : std::string("atomic.cmpxchg"));
                                J.attribute("id", ep.names[&I]);
                                J.attributeArray("args", [&] {
                                    for(auto& x : I.operands())
                                        J.value(ep.str(x));
                                    J.value(std::to_string(dl.getTypeStoreSize(I.getOperand(1)->getType())));
                                });
                                J.attribute("eff", "any");
                                loc();
                            });
                        }
                    }
                });
                auto t = BB.getTerminator();
                J.attribute("loc", locOf(*t));
                if(auto r = dyn_cast<ReturnInst>(t))
                    J.attribute("ret", r->getReturnValue() ? ep.str(r->getReturnValue()) : "void");
                else if(auto br = dyn_cast<BranchInst>(t)) {
                    if(br->isConditional())
                        J.attribute("cond", ep.str(br->getCondition()));
                    J.attributeArray("succ", [&] {
                        for(unsigned k = 0; k < br->getNumSuccessors(); ++k)
                            J.value(ids[br->getSuccessor(k)]);
                    });
                } else if(auto sw = dyn_cast<SwitchInst>(t)) {
                    J.attribute("switch", ep.str(sw->getCondition()));
                    J.attributeObject("cases", [&] {
                        for(auto& c : sw->cases())
                            J.attribute(std::to_string(c.getCaseValue()->getSExtValue()), ids[c.getCaseSuccessor()]);
                    });
                    J.attribute("default", ids[sw->getDefaultDest()]);
                } else
                    J.attribute("stop", 1);
            });
    });
}

int runSpec(const json::Object& spec) {
    LLVMContext ctx;
    std::vector<std::string> files;
    for(auto& v : *spec.getArray("modules"))
        files.push_back(v.getAsString()->str());
    auto M = loadModules(ctx, files);
    // integer fields read by trivial accessors: name -> (offset, width)
    std::map<std::string, std::pair<int64_t, unsigned>> accessorOffset;
    for(auto& F : *M) {
        if(F.isDeclaration() || F.arg_size() != 1 || !F.getReturnType()->isIntegerTy())
            continue;
        LoadInst* res = nullptr;
        unsigned n = 0;
        int64_t o = 0;
        for(auto& I : instructions(F))
            if(auto r = dyn_cast<ReturnInst>(&I)) {
                auto v = r->getReturnValue();
                if(auto l = dyn_cast_or_null<LoadInst>(v)) {
                    auto b = GetPointerBaseWithConstantOffset(l->getPointerOperand(), o, M->getDataLayout());
                    // -O0 form: the base is the reload of the spilled argument
                    if(auto bl = dyn_cast<LoadInst>(b); bl && isa<AllocaInst>(bl->getPointerOperand()))
                        res = l;
                    else if(isa<Argument>(b))
                        res = l;
                }
                ++n;
            }
        if(res && n == 1)
            accessorOffset[qualName(F)] = { o, res->getType()->getIntegerBitWidth() };
    }
    auto roots = prepare(*M, spec);
    std::vector<Re> sinks;
    if(auto a = spec.getArray("sinks"))
        for(auto& v : *a)
            sinks.emplace_back(v.getAsString()->str());
    bool wantConds = spec.getBoolean("conds").value_or(false);
    bool wantTree = spec.getBoolean("tree").value_or(false);
    bool wantCFG = spec.getBoolean("cfg").value_or(false);
    bool wantDump = spec.getBoolean("dump").value_or(false);

    json::OStream J(outs(), 1);
    J.objectBegin();
    J.attributeArray("roots", [&] {
        for(auto& n : roots)
            J.value(fullName(n));
    });
    J.attributeArray("results", [&] {
        for(auto& rootName : roots)
            for(auto& qv : *spec.getArray("queries")) {
                auto& q = *qv.getAsObject();
                auto C = CloneModule(*M);
                Function* F = C->getFunction(rootName);
                if(auto args = q.getObject("args"))
                    for(auto& kv : *args) {
                        unsigned idx = std::stoul(kv.first.str());
                        if(idx < F->arg_size()) {
                            auto a = F->getArg(idx);
                            if(a->getType()->isIntegerTy())
                                a->replaceAllUsesWith(ConstantInt::getSigned(a->getType(), *kv.second.getAsInteger()));
                        }
                    }
                std::vector<std::pair<Re, const json::Object*>> seeds;
                if(auto s = q.getArray("seeds"))
                    for(auto& sv : *s)
                        seeds.emplace_back(Re(sv.getAsObject()->getString("re")->str()), sv.getAsObject());
                unsigned applied = 0;
                auto applySeeds = [&]() {
                    unsigned before = applied;
                {
                    std::vector<CallBase*> work;
                    ExprPrinter ep;
                    for(auto& I : instructions(*F))
                        if(auto cb = dyn_cast<CallBase>(&I))
                            work.push_back(cb);
                    for(auto cb : work) {
                        auto fn = calledFn(*cb);
                        if(!fn)
                            continue;
                        const auto& nm = qualName(*fn);
                        for(auto& [re, so] : seeds) {
                            if(!re(nm))
                                continue;
                            if(auto ae = so->getString("argre")) {
                                Re are(ae->str());
                                bool ok = false;
                                for(auto& a : cb->args())
                                    if(are(ep.str(a)))
                                        ok = true;
                                if(!ok)
                                    continue;
                            }
                            if(so->getBoolean("identity").value_or(false)) {
                                cb->replaceAllUsesWith(cb->getArgOperand(0));
                                ++applied;
                            } else if(cb->getType()->isIntegerTy()) {
                                cb->replaceAllUsesWith(ConstantInt::getSigned(cb->getType(), *so->getInteger("val")));
                                ++applied;
                            } else if(cb->getType()->isPointerTy() && so->getInteger("val") == 0) {
                                cb->replaceAllUsesWith(ConstantPointerNull::get(cast<PointerType>(cb->getType())));
                                ++applied;
                            }
                            break;
                        }
                    }
                }
                // loads of the field read by an accessor
                for(auto& [re, so] : seeds) {
                    auto base = so->getString("field_base");
                    if(!base)
                        continue;
                    Re bre(base->str());
                    for(auto& [acc, off] : accessorOffset) {
                        if(!re(acc))
                            continue;
                        std::vector<LoadInst*> loads;
                        ExprPrinter ep;
                        for(auto& I : instructions(*F))
                            if(auto l = dyn_cast<LoadInst>(&I); l && l->getType()->isIntegerTy()) {
                                int64_t o = 0;
                                auto b = GetPointerBaseWithConstantOffset(l->getPointerOperand(), o, C->getDataLayout());
                                if(o == off.first && l->getType()->getIntegerBitWidth() == off.second && bre(ep.str(b)))
                                    loads.push_back(l);
                            }
                        for(auto l : loads) {
                            l->replaceAllUsesWith(ConstantInt::getSigned(l->getType(), *so->getInteger("val")));
                            ++applied;
                        }
                    }
                }
                    return applied != before;
                };
                applySeeds();
                runPipeline(*C, false);
                for(unsigned round = 0; round < 6; ++round) {
                    F = C->getFunction(rootName);
                    bool i = inlineRest(*C);
                    F = C->getFunction(rootName);
                    bool s = applySeeds();
                    if(!i && !s && round)
                        break;
                    runPipeline(*C, false);
                }
                F = C->getFunction(rootName);
                J.object([&] {
                    J.attribute("root", fullName(rootName));
                    J.attribute("name", qualName(rootName));
                    if(auto g = spec.getString("globals"))
                        printGlobals(*C, J, Re(g->str()));
                    J.attribute("id", *q.getString("id"));
                    J.attribute("applied", applied);
                    if(wantCFG) {
                        if(auto re = spec.getString("region")) {
                            Re rr(re->str());
                            DominatorTree dt(*F);
                            BasicBlock* ncd = nullptr;
                            unsigned k = 0;
                            std::map<const BasicBlock*, unsigned> ids;
                            for(auto& BB : *F) {
                                ids[&BB] = k++;
                                for(auto& I : BB)
                                    if(auto cb = dyn_cast<CallBase>(&I); cb && dt.getNode(&BB))
                                        if(auto fn = calledFn(*cb); fn && rr(qualName(*fn)))
                                            ncd = ncd ? dt.findNearestCommonDominator(ncd, &BB) : &BB;
                            }
                            LoopInfo li(dt);
                            if(ncd) {
                                auto l = li.getLoopFor(ncd);
                                J.attribute("ncd", ids[ncd]);
                                J.attribute("region", ids[l ? l->getHeader() : &F->getEntryBlock()]);
                            }
                        }
                        printCFG(*F, J);
                    } else if(wantTree) {
                        TreePrinter tp{ sinks, J };
                        if(auto l = spec.getInteger("limit"))
                            tp.limit = *l;
                        const BasicBlock* start = &F->getEntryBlock();
                        auto matches = [&](const BasicBlock& BB, const std::vector<Re>& res) {
                            for(auto& I : BB)
                                if(auto cb = dyn_cast<CallBase>(&I))
                                    if(auto fn = calledFn(*cb))
                                        for(auto& r : res)
                                            if(r(qualName(*fn)))
                                                return true;
                            return false;
                        };
                        DominatorTree dt(*F);
                        bool found = true;
                        if(auto fromRe = spec.getString("tree_from")) {
                            std::vector<Re> res{ Re(fromRe->str()) };
                            BasicBlock* ncd = nullptr;
                            for(auto& BB : *F)
                                if(dt.getNode(&BB) && matches(BB, res))
                                    ncd = ncd ? dt.findNearestCommonDominator(ncd, &BB) : &BB;
                            if(ncd)
                                start = ncd;
                            else
                                found = false;
                        }
                        J.attribute("found", found);
                        if(spec.getBoolean("tree_prune").value_or(false)) {
                            std::vector<const BasicBlock*> work;
                            for(auto& BB : *F)
                                if(matches(BB, sinks))
                                    work.push_back(&BB);
                            while(!work.empty()) {
                                auto b = work.back();
                                work.pop_back();
                                if(!tp.keep.insert(b).second || b == start)
                                    continue;
                                for(auto p : predecessors(b))
                                    work.push_back(p);
                            }
                            tp.keep.insert(start);
                        }
                        J.attributeBegin("tree");
                        if(found)
                            tp.walk(nullptr, start);
                        else
                            J.object([] {});
                        J.attributeEnd();
                        J.attribute("leaves", tp.leaves);
                    } else
                        printFunction(*F, sinks, J, wantConds);
                });
                if(wantDump)
                    F->print(errs());
            }
    });
    J.objectEnd();
    outs() << "\n";
    return 0;
}
