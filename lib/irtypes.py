"""IR type objects and data layouts for the abstract interpreter: their virtual functions are interpreted from
the residual program, found through the virtual tables of the compiled code."""
from vlib import *
from absint import Machine, Ptr, const_table

TYPE_ROOTS = r"^cmmc::(Type|IntegerType|FloatingPointType|PointerType|VoidType|ArrayType|InvalidType)::(rank|isBoolean|getFixedSize|getSize|getAlignment|isSame)$|^cmmc::(mir::)?[A-Za-z]*DataLayout::get"
H = '''
#include <cmmc/IR/Type.hpp>
using namespace cmmc;
extern "C" long vk_bits(IntegerType* t) { return (long)t->getBitwidth(); }
extern "C" const Type* vk_pointee(PointerType* t) { return t->getPointee(); }
'''


def leaves(x):
    if isinstance(x, (list, tuple)):
        if x and x[0] == "ld":
            yield x
        for y in x:
            yield from leaves(y)


class Types:
    def __init__(self):
        bc = harness("irtypes", H)
        if bc is None:
            raise Broken("type interface not recognised")

        def off(fn):
            r = run_tool("spec", {"modules": [bc], "root": "^%s$" % fn, "opaque": [], "queries": [{"id": "x"}], "cfg": True})
            t = [t for t in Machine(r["results"][0], lambda *a: None, [Ptr("I")]).run() if t.end == "ret"]
            v = t[0].ret if len(t) == 1 else None
            while isinstance(v, tuple) and v[0] != "ld" and len(v) > 1:
                v = next((x for x in v[1:] if isinstance(x, tuple)), None)
            if isinstance(v, tuple) and v[0] == "ld" and v[1] == "I":
                return v[2], {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "i1": 1}[v[3]]
            raise Broken("type layout not recognised (%s: %r)" % (fn, v))
        r = run_tool("spec", {"modules": bitcode(["IR/Type.cpp"]), "root": "^cmmc::FloatingPointType::getFixedSize$", "opaque": [], "queries": [{"id": "x"}], "cfg": True})
        try:
            ts = [t for t in Machine(r["results"][0], None, [Ptr("I")]).run() if t.end == "ret"]
        except Exception:
            ts = []
        offs = {(k[2], {"i8": 1, "i32": 4, "i1": 1}.get(k[3])) for t in ts for k in leaves(list(t.assume) + [t.ret]) if k[0] == "ld" and k[1] == "I"}
        if len(offs) != 1:
            raise Broken("floating-point type layout not recognised")
        self.fpval = {}
        o, n = next(iter(offs))
        for v in (0, 1):
            t = Machine(r["results"][0], None, [Ptr("I")], mem0={("I", o): (v, n)}).run()
            self.fpval[t[0].ret] = v
        if set(self.fpval) != {4, 8}:
            raise Broken("floating-point type layout not recognised")
        self.bits, self.pointee, self.fp = off("vk_bits"), off("vk_pointee"), offs.pop()

    def obj(self, name):
        """(value, cells) of a type: i1 i8 i16 i32 i64 f32 f64 ptr void"""
        b = ("obj", "ty", name)
        vt = {"i": "IntegerType", "f": "FloatingPointType", "p": "PointerType", "v": "VoidType"}[name[0]]
        m = {(b, 0): (Ptr("@vtable\x01for\x01cmmc::" + vt, 16), 8)}
        if name[0] == "i":
            m[(b, self.bits[0])] = (int(name[1:]), self.bits[1])
        elif name[0] == "f":
            m[(b, self.fp[0])] = (self.fpval[4 if name == "f32" else 8], self.fp[1])
        elif name[0] == "p":
            m[(b, self.pointee[0])] = (Ptr(("obj", "ty", "i32")), 8)
        return Ptr(b), m

    def all(self):
        m = {}
        for n in ("i1", "i8", "i16", "i32", "i64", "f32", "f64", "ptr", "void"):
            m.update(self.obj(n)[1])
        return m


def vtables(modules):
    return const_table(run_tool("facts", {"modules": modules, "globals": "^@vtable.for.cmmc"})["globals"])


def functions(r):
    """name -> residual function of a spec result"""
    out = {}
    for x in r["results"]:
        if x.get("blocks"):
            out.setdefault(x["name"], x)
    return out
