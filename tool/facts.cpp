// Facts about the linked modules as written (no inlining): direct calls, constant globals.
#include "common.hpp"
int runFacts(const json::Object& spec) {
    std::vector<std::string> files;
    for(auto& v : *spec.getArray("modules"))
        files.push_back(v.getAsString()->str());
    LLVMContext ctx;
    auto M = loadModules(ctx, files);
    json::OStream J(outs(), 1);
    J.objectBegin();
    if(auto g = spec.getString("globals"))
        printGlobals(*M, J, Re(g->str()));
    if(auto f = spec.getString("functions")) {
        Re re(f->str());
        std::optional<Re> cre;
        if(auto c = spec.getString("callees"))
            cre.emplace(c->str());
        J.attributeArray("functions", [&] {
            for(auto& F : *M) {
                if(F.isDeclaration() || !re(qualName(F)))
                    continue;
                J.object([&] {
                    J.attribute("name", qualName(F));
                    J.attribute("full", fullName(F.getName()));
                    J.attribute("mangled", F.getName().str());
                    if(auto sp = F.getSubprogram())
                        J.attribute("loc", sp->getFilename().str() + ":" + std::to_string(sp->getLine()));
                    J.attributeArray("calls", [&] {
                        for(auto& I : instructions(F))
                            if(auto cb = dyn_cast<CallBase>(&I)) {
                                auto fn = calledFn(*cb);
                                if(fn && fn->isIntrinsic())
                                    continue;
                                std::string nm = fn ? qualName(*fn) : "indirect";
                                if(cre && !(*cre)(nm))
                                    continue;
                                J.object([&] {
                                    J.attribute("name", nm);
                                    if(fn)
                                        J.attribute("full", fullName(fn->getName()));
                                    J.attribute("loc", locOf(I));
                                });
                            }
                    });
                    J.attributeArray("refs", [&] {
                        std::set<std::string> s;
                        std::vector<const Value*> work;
                        std::set<const Value*> seen;
                        for(auto& I : instructions(F))
                            for(auto& op : I.operands())
                                if(isa<Constant>(op) && !(isa<CallBase>(I) && cast<CallBase>(I).isCallee(&op)))
                                    work.push_back(op);
                        while(!work.empty()) {
                            auto v = work.back();
                            work.pop_back();
                            if(!seen.insert(v).second)
                                continue;
                            if(auto g = dyn_cast<Function>(v))
                                s.insert(fullName(g->getName()));
                            else if(auto g2 = dyn_cast<GlobalVariable>(v))
                                s.insert(demangle(g2->getName().str()));
                            else if(auto c = dyn_cast<Constant>(v))
                                for(auto& o : c->operands())
                                    work.push_back(o);
                        }
                        for(auto& x : s)
                            J.value(x);
                    });
                });
            }
        });
    }
    J.objectEnd();
    outs() << "\n";
    return 0;
}
