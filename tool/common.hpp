// Shared helpers of the IR analysers: names, modules, expression normal forms.
#pragma once
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/DenseSet.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/ADT/SetVector.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;

// extended regular expressions, searched anywhere in the name
struct Re {
    std::shared_ptr<Regex> re;
    Re(const std::string& s) : re(std::make_shared<Regex>(s)) {
        std::string err;
        if(!re->isValid(err)) {
            errs() << "bad regex " << s << ": " << err << "\n";
            exit(3);
        }
    }
    bool operator()(StringRef s) const { return re->match(s); }
};

// "cmmc::ConstantInteger::getSignExtended" (no parameters, no return type)
inline const std::string& qualName(StringRef mangled) {
    static std::unordered_map<std::string, std::string> cache;
    auto key = mangled.str();
    auto it = cache.find(key);
    if(it != cache.end())
        return it->second;
    std::string res;
    ItaniumPartialDemangler d;
    if(d.partialDemangle(key.c_str())) {
        res = key;
    } else {
        size_t n = 0;
        if(char* s = d.getFunctionName(nullptr, &n)) {
            res = s;
            free(s);
        } else if(char* s2 = d.finishDemangle(nullptr, &n)) {
            res = s2;
            free(s2);
        } else
            res = key;
    }
    return cache.emplace(key, res).first->second;
}
inline const std::string& fullName(StringRef mangled) {
    static std::unordered_map<std::string, std::string> cache;
    auto key = mangled.str();
    auto it = cache.find(key);
    if(it != cache.end())
        return it->second;
    return cache.emplace(key, demangle(key)).first->second;
}
inline const std::string& qualName(const Function& f) {
    return qualName(f.getName());
}

inline std::string locOf(const Instruction& i) {
    if(const DILocation* l = i.getDebugLoc()) {
        // report the outermost location that is in /repo, with the inlining chain
        std::string s = l->getFilename().str() + ":" + std::to_string(l->getLine());
        return s;
    }
    return "?";
}
inline std::string locChain(const Instruction& i) {
    std::string s;
    for(const DILocation* l = i.getDebugLoc(); l; l = l->getInlinedAt()) {
        if(!s.empty())
            s += " <- ";
        s += l->getFilename().str() + ":" + std::to_string(l->getLine());
    }
    return s.empty() ? "?" : s;
}

inline std::unique_ptr<Module> loadModules(LLVMContext& ctx, const std::vector<std::string>& files) {
    std::unique_ptr<Module> res;
    for(auto& f : files) {
        SMDiagnostic err;
        auto m = parseIRFile(f, err, ctx);
        if(!m) {
            errs() << "cannot load " << f << ": " << err.getMessage() << "\n";
            exit(3);
        }
        if(!res)
            res = std::move(m);
        else if(Linker::linkModules(*res, std::move(m))) {
            errs() << "link failure: " << f << "\n";
            exit(3);
        }
    }
    return res;
}

inline Function* calledFn(const CallBase& cb) {
    return dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
}

inline std::string esc(std::string s) {
    for(auto& c : s)
        c = c == ' ' ? '\1' : c == '(' ? '\2' : c == ')' ? '\3' : c;
    return s;
}

struct ExprPrinter {
    unsigned maxDepth = 14;
    DenseSet<const Value*> active;
    std::map<const Value*, std::string> names;     // caller-provided leaves
    std::map<const PHINode*, Value*> phiEnv;       // path-sensitive phi resolution
    std::map<const Function*, std::shared_ptr<DominatorTree>> dts;
    unsigned budget = 20000;

    // the decision tree that selects the incoming value of a phi, from the immediate dominator on
    std::string gate(const PHINode* p, const BasicBlock* from, const BasicBlock* to, std::set<const BasicBlock*>& onPath, unsigned depth,
                     unsigned& leaves, bool& ok, const std::set<const BasicBlock*>& reach) {
        if(to == p->getParent()) {
            if(++leaves > 24)
                ok = false;
            return ok ? str(p->getIncomingValueForBlock(from), depth + 1) : "";
        }
        if(!reach.count(to))
            return "none";
        if(!ok || onPath.count(to)) {
            ok = false;
            return "";
        }
        auto t = to->getTerminator();
        if(isa<UnreachableInst>(t) || isa<ReturnInst>(t))
            return "none";
        onPath.insert(to);
        std::string res;
        if(auto br = dyn_cast<BranchInst>(t)) {
            if(br->isUnconditional())
                res = gate(p, to, br->getSuccessor(0), onPath, depth, leaves, ok, reach);
            else {
                auto a = gate(p, to, br->getSuccessor(0), onPath, depth, leaves, ok, reach);
                auto b = gate(p, to, br->getSuccessor(1), onPath, depth, leaves, ok, reach);
                if(ok) {
                    if(a == b || b == "none")
                        res = a;
                    else if(a == "none")
                        res = b;
                    else
                        res = "(ite " + str(br->getCondition(), depth + 1) + " " + a + " " + b + ")";
                }
            }
        } else if(auto sw = dyn_cast<SwitchInst>(t)) {
            res = gate(p, to, sw->getDefaultDest(), onPath, depth, leaves, ok, reach);
            auto c = str(sw->getCondition(), depth + 1);
            for(auto& cs : sw->cases()) {
                auto a = gate(p, to, cs.getCaseSuccessor(), onPath, depth, leaves, ok, reach);
                if(ok && a != "none" && a != res)
                    res = res == "none" ? a : "(ite (icmp-eq:64 " + std::to_string(cs.getCaseValue()->getSExtValue()) + " " + c + ") " + a + " " + res + ")";
            }
        } else
            ok = false;
        onPath.erase(to);
        return res;
    }

    static std::string gepStr(const GEPOperator* g, const DataLayout& dl, std::string& base, ExprPrinter& p, unsigned depth) {
        APInt off(64, 0);
        MapVector<Value*, APInt> var;
        if(g->collectOffset(dl, 64, var, off)) {
            std::string s = "(gep " + std::to_string(off.getSExtValue()) + " " + base;
            for(auto& kv : var)
                s += " (* " + std::to_string(kv.second.getSExtValue()) + " " + p.str(kv.first, depth + 1) + ")";
            return s + ")";
        }
        std::string s = "(gep? " + base;
        for(auto it = g->idx_begin(); it != g->idx_end(); ++it)
            s += " " + p.str(it->get(), depth + 1);
        return s + ")";
    }

    std::map<const Value*, unsigned> allocaIds;

    // a load from a constant table: (lookup index v0 v1 ...)
    std::string lookup(const LoadInst* l, unsigned depth) {
        auto g = dyn_cast<GEPOperator>(l->getPointerOperand());
        if(!g)
            return "";
        auto gv = dyn_cast<GlobalVariable>(g->getPointerOperand());
        if(!gv || !gv->isConstant() || !gv->hasDefinitiveInitializer())
            return "";
        auto arr = dyn_cast<ConstantDataArray>(gv->getInitializer());
        auto zero = dyn_cast<ConstantAggregateZero>(gv->getInitializer());
        auto& dl = l->getModule()->getDataLayout();
        auto ety = arr ? arr->getElementType() : zero && isa<ArrayType>(zero->getType()) ? zero->getType()->getArrayElementType() : nullptr;
        if(!ety || ety != l->getType())
            return "";
        auto cnt = cast<ArrayType>(gv->getValueType())->getNumElements();
        if(cnt > 512)
            return "";
        APInt off(64, 0);
        MapVector<Value*, APInt> var;
        if(!g->collectOffset(dl, 64, var, off) || var.size() != 1)
            return "";
        auto size = static_cast<int64_t>(dl.getTypeAllocSize(ety));
        if(var.front().second.getSExtValue() != size || off.getSExtValue() % size)
            return "";
        auto base = off.getSExtValue() / size;
        std::string s = "(lookup ";
        auto idx = str(var.front().first, depth + 1);
        s += base ? "(add:64 " + idx + " " + std::to_string(base) + ")" : idx;
        for(uint64_t k = 0; k < cnt; ++k)
            s += " " + str(arr ? arr->getElementAsConstant(k) : Constant::getNullValue(ety), depth + 1);
        return s + ")";
    }

    std::string str(const Value* v, unsigned depth = 0) {
        if(auto it = names.find(v); it != names.end())
            return it->second;
        if(auto c = dyn_cast<ConstantInt>(v)) {
            SmallString<32> s;
            if(c->getType()->isIntegerTy(1))
                return c->isOne() ? "1" : "0";
            c->getValue().toStringSigned(s);
            return s.str().str();
        }
        if(auto c = dyn_cast<ConstantFP>(v)) {
            SmallString<32> s;
            c->getValueAPF().toString(s);
            return "fp:" + s.str().str();
        }
        if(isa<ConstantPointerNull>(v))
            return "null";
        if(isa<PoisonValue>(v))
            return "poison";
        if(isa<UndefValue>(v))
            return "undef";
        if(auto f = dyn_cast<Function>(v))
            return "@" + esc(qualName(*f));
        if(auto g = dyn_cast<GlobalVariable>(v)) {
            if(g->hasInitializer() && g->isConstant())
                if(auto cda = dyn_cast<ConstantDataArray>(g->getInitializer()); cda && cda->isCString())
                    return "\"" + cda->getAsCString().str() + "\"";
            return "@" + esc(demangle(g->getName().str()));
        }
        if(auto a = dyn_cast<Argument>(v))
            return "arg" + std::to_string(a->getArgNo());
        if(depth > maxDepth)
            return "...";
        if(active.count(v))
            return "rec";
        active.insert(v);
        std::string res = strImpl(v, depth);
        active.erase(v);
        return res;
    }

    std::string strImpl(const Value* v, unsigned depth) {
        if(auto g = dyn_cast<GEPOperator>(v)) {
            const DataLayout* dl = nullptr;
            if(auto i = dyn_cast<Instruction>(v))
                dl = &i->getModule()->getDataLayout();
            std::string base = str(g->getPointerOperand(), depth + 1);
            static DataLayout def("e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128");
            return gepStr(g, dl ? *dl : def, base, *this, depth);
        }
        if(auto ce = dyn_cast<ConstantExpr>(v)) {
            std::string s = "(" + std::string(ce->getOpcodeName());
            for(auto& op : ce->operands())
                s += " " + str(op, depth + 1);
            return s + ")";
        }
        if(auto cs = dyn_cast<ConstantStruct>(v)) {
            std::string s = "(struct";
            for(auto& op : cs->operands())
                s += " " + str(op, depth + 1);
            return s + ")";
        }
        if(isa<Constant>(v)) {
            std::string s;
            raw_string_ostream os(s);
            v->printAsOperand(os, false);
            return "k:" + os.str();
        }
        auto i = dyn_cast<Instruction>(v);
        if(!i)
            return "?";
        if(auto cb = dyn_cast<CallBase>(i)) {
            std::string s = "(call ";
            if(auto f = calledFn(*cb))
                s += esc(qualName(*f));
            else
                s += "indirect:" + str(cb->getCalledOperand(), depth + 1);
            std::vector<std::string> as;
            for(auto& a : cb->args())
                as.push_back(str(a, depth + 1));
            if(auto f = calledFn(*cb); f && f->isIntrinsic()) {
                switch(f->getIntrinsicID()) {
                    case Intrinsic::smax:
                    case Intrinsic::smin:
                    case Intrinsic::umax:
                    case Intrinsic::umin:
                        std::sort(as.begin(), as.end());
                    default:;
                }
            }
            for(auto& a : as)
                s += " " + a;
            return s + ")";
        }
        if(auto p = dyn_cast<PHINode>(i)) {
            if(auto it = phiEnv.find(p); it != phiEnv.end())
                return str(it->second, depth);
            auto fn = p->getFunction();
            auto& dt = dts[fn];
            if(!dt)
                dt = std::make_shared<DominatorTree>(*const_cast<Function*>(fn));
            if(auto node = dt->getNode(p->getParent()); node && node->getIDom() && budget) {
                bool back = false;
                for(auto in : p->blocks())
                    back |= dt->dominates(p->getParent(), in);
                if(!back) {
                    auto d = node->getIDom()->getBlock();
                    bool ok = true;
                    unsigned leaves = 0;
                    --budget;
                    std::set<const BasicBlock*> onPath;
                    // blocks from which the join is reached before its immediate dominator is entered again
                    std::set<const BasicBlock*> reach{ d };
                    std::vector<const BasicBlock*> work(pred_begin(p->getParent()), pred_end(p->getParent()));
                    while(!work.empty()) {
                        auto w = work.back();
                        work.pop_back();
                        if(!reach.insert(w).second)
                            continue;
                        for(auto q : predecessors(w))
                            work.push_back(q);
                    }
                    auto r = gate(p, nullptr, d, onPath, depth, leaves, ok, reach);
                    if(ok && r != "none")
                        return r;
                }
            }
            std::set<std::string> s;
            for(auto& in : p->incoming_values())
                s.insert(str(in, depth + 1));
            std::string r = "(phi";
            for(auto& x : s)
                r += " " + x;
            return r + ")";
        }
        std::string name = i->getOpcodeName();
        if(isa<AllocaInst>(i)) {
            auto& n = allocaIds[i];
            if(!n)
                n = allocaIds.size();
            return "(alloca " + std::to_string(n) + ")";
        }
        if(auto l = dyn_cast<LoadInst>(i))
            if(auto t = lookup(l, depth); !t.empty())
                return t;
        std::vector<std::string> as;
        for(auto& op : i->operands())
            as.push_back(str(op, depth + 1));
        if(auto c = dyn_cast<CmpInst>(i)) {
            auto pred = c->getPredicate();
            if(as[0] > as[1]) {
                std::swap(as[0], as[1]);
                pred = CmpInst::getSwappedPredicate(pred);
            }
            name = std::string(isa<ICmpInst>(i) ? "icmp-" : "fcmp-") + CmpInst::getPredicateName(pred).str();
            if(isa<ICmpInst>(i)) {
                auto ty = i->getOperand(0)->getType();
                name += ty->isIntegerTy() ? ":" + std::to_string(ty->getIntegerBitWidth()) : ":p";
            }
        } else if(i->isCommutative())
            std::sort(as.begin(), as.end());
        if(isa<CastInst>(i)) {
            std::string ty;
            raw_string_ostream os(ty);
            i->getOperand(0)->getType()->print(os);
            os << ">";
            i->getType()->print(os);
            name += ":" + os.str();
        } else if(auto l = dyn_cast<LoadInst>(i)) {
            std::string ty;
            raw_string_ostream os(ty);
            l->getType()->print(os);
            name += ":" + os.str();
        } else if(auto iv = dyn_cast<InsertValueInst>(i)) {
            for(auto x : iv->indices())
                name += "." + std::to_string(x);
        } else if(auto ev = dyn_cast<ExtractValueInst>(i)) {
            for(auto idx : ev->indices())
                name += "." + std::to_string(idx);
        } else if(i->getType()->isIntegerTy() && isa<BinaryOperator>(i)) {
            name += ":" + std::to_string(i->getType()->getIntegerBitWidth());
        }
        std::string s = "(" + name;
        for(auto& a : as)
            s += " " + a;
        return s + ")";
    }
};


// constant globals whose (demangled) name matches: name -> [[offset, size, value]...]; values are integers or the
// notation of ExprPrinter for addresses ("@name", "\"text\"")
inline void flattenInit(const Constant* c, uint64_t off, const DataLayout& dl, json::OStream& J) {
    auto put = [&](uint64_t o, uint64_t n, const json::Value& v) {
        J.array([&] {
            J.value(static_cast<int64_t>(o));
            J.value(static_cast<int64_t>(n));
            J.value(v);
        });
    };
    auto ty = c->getType();
    uint64_t n = dl.getTypeAllocSize(ty);
    if(auto i = dyn_cast<ConstantInt>(c); i && i->getBitWidth() <= 64)
        return put(off, dl.getTypeStoreSize(ty), i->getSExtValue());
    if(auto f = dyn_cast<ConstantFP>(c)) {
        SmallString<32> s;
        f->getValueAPF().toString(s);
        return put(off, n, "fp:" + s.str().str());
    }
    if(isa<ConstantAggregateZero>(c))
        return put(off, n, "zero");
    if(isa<ConstantPointerNull>(c))
        return put(off, n, 0);
    if(isa<UndefValue>(c))
        return;
    if(auto st = dyn_cast<StructType>(ty)) {
        auto l = dl.getStructLayout(st);
        for(unsigned i = 0; i < st->getNumElements(); ++i)
            flattenInit(c->getAggregateElement(i), off + l->getElementOffset(i), dl, J);
        return;
    }
    if(auto at = dyn_cast<ArrayType>(ty)) {
        auto es = dl.getTypeAllocSize(at->getElementType());
        for(uint64_t i = 0; i < at->getNumElements(); ++i)
            flattenInit(c->getAggregateElement(i), off + i * es, dl, J);
        return;
    }
    ExprPrinter ep;
    put(off, n, ep.str(c));
}
inline void printGlobals(const Module& M, json::OStream& J, const Re& re) {
    J.attributeObject("globals", [&] {
        ExprPrinter ep;
        for(auto& g : M.globals())
            if(g.hasInitializer() && g.isConstant()) {
                auto nm = "@" + esc(demangle(g.getName().str()));
                if(!re(nm))
                    continue;
                J.attributeArray(nm, [&] { flattenInit(g.getInitializer(), 0, M.getDataLayout(), J); });
            }
    });
}
