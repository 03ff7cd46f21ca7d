#include "common.hpp"
int runSpec(const json::Object&);
int runFacts(const json::Object&);
int main(int argc, char** argv) {
    if(argc < 3) {
        errs() << "usage: irtool <cmd> <spec.json>\n";
        return 3;
    }
    auto buf = MemoryBuffer::getFile(argv[2]);
    if(!buf) {
        errs() << "cannot read spec\n";
        return 3;
    }
    auto v = json::parse((*buf)->getBuffer());
    if(!v) {
        errs() << "bad json: " << toString(v.takeError()) << "\n";
        return 3;
    }
    std::string cmd = argv[1];
    if(cmd == "spec")
        return runSpec(*v->getAsObject());
    if(cmd == "facts")
        return runFacts(*v->getAsObject());
    errs() << "unknown command\n";
    return 3;
}
