"""Layout of machine instructions and operands in memory, measured from the compiled accessors
(so that a change of the data structure moves the model along), for the abstract interpreter."""
from vlib import *
from absint import Machine, Ptr

HARNESS = '''
#include <cmmc/CodeGen/MIR.hpp>
#include <new>
using namespace cmmc; using namespace cmmc::mir;
extern "C" void vk_opcode(MIRInst* i) { i->setOpcode(11); }
extern "C" void vk_op0(MIRInst* i) { i->setOperand<0>(MIROperand::asImm<intmax_t>(111, static_cast<OperandType>(5))); }
extern "C" void vk_op1(MIRInst* i) { i->setOperand<1>(MIROperand::asImm<intmax_t>(112, static_cast<OperandType>(6))); }
extern "C" void vk_imm(MIROperand* o) { new(o) MIROperand(static_cast<intmax_t>(113), static_cast<OperandType>(7)); }
extern "C" void vk_reg(MIROperand* o) { new(o) MIROperand(MIRRegister{ 115U }, static_cast<OperandType>(7)); }
extern "C" void vk_reloc(MIROperand* o, MIRRelocable* r) { new(o) MIROperand(r, static_cast<OperandType>(7)); }
extern "C" void vk_prob(MIROperand* o, double p) { new(o) MIROperand(p, static_cast<OperandType>(7)); }
extern "C" void vk_none(MIROperand* o) { new(o) MIROperand(); }
'''


class Layout:
    def __init__(self):
        bc = harness("mirlayout", HARNESS)
        if bc is None:
            raise Broken("machine operand interface not recognised")

        def cells(fn, base="arg0", args=()):
            r = run_tool("spec", {"modules": [bc], "root": "^%s$" % fn, "opaque": [], "queries": [{"id": "x", "seeds": []}], "cfg": True})
            m = Machine(r["results"][0], lambda *a: None, args)
            t = [t for t in m.run() if t.end == "ret"]
            if len(t) != 1:
                raise Broken("machine operand layout not recognised (%s)" % fn)
            out = {}

            def put(o, v, n):
                if isinstance(v, tuple) and v and v[0] == "cells":
                    for o2, v2, n2 in v[2:]:
                        put(o + o2, v2, n2)
                else:
                    out[o] = (v, n)
            for (b, o), (v, n) in t[0].mem.items():
                if b == base:
                    put(o, v, n)
            return out

        def find(c, v):
            l = [(o, n) for o, (x, n) in c.items() if x == v]
            if len(l) != 1:
                raise Broken("machine operand layout not recognised (%r in %r)" % (v, c))
            return l[0]
        self.opcode = find(cells("vk_opcode"), 11)
        imm = cells("vk_imm")
        self.value, self.type = find(imm, 113), find(imm, 7)
        rest = [o for o in imm if o not in (self.value[0], self.type[0])]
        if len(rest) != 1:
            raise Broken("operand discriminator not recognised")
        self.index = (rest[0], imm[rest[0]][1])
        self.base = find(cells("vk_op0"), 111)[0] - self.value[0]
        self.stride = find(cells("vk_op1"), 112)[0] - self.value[0] - self.base
        self.kinds = {}
        self.size = {}
        for k, fn, v, args in (("imm", "vk_imm", 113, ()), ("reg", "vk_reg", 115, ()), ("reloc", "vk_reloc", ("obj", "r"), (None, ("obj", "r"))),
                               ("prob", "vk_prob", ("obj", "p"), (None, ("obj", "p"))), ("none", "vk_none", None, ())):
            c = cells(fn, args=args)
            self.kinds[k] = c[self.index[0]][0]
            if v is not None:
                self.size[k] = find(c, v)
        self.rev = {v: k for k, v in self.kinds.items()}

    def operand(self, base, off, kind, value, type_=None):
        """memory cells of one operand"""
        m = {(base, off + self.index[0]): (self.kinds[kind], self.index[1])}
        if kind in self.size:
            o, n = self.size[kind]
            m[(base, off + o)] = (value, n)
        if kind == "reg":
            m.setdefault((base, off + self.size["reg"][0] + self.size["reg"][1]), (0, 4))
        m[(base, off + self.type[0])] = (type_ if type_ is not None else ("obj", "type"), self.type[1])
        return m

    def inst(self, base, opcode, operands):
        m = {(base, self.opcode[0]): (opcode, self.opcode[1])}
        for i, o in enumerate(operands):
            m.update(self.operand(base, self.base + i * self.stride, *o))
        return m

    def read(self, mem, base, off):
        """(kind, value, type) of the operand at base+off; None when unknown"""
        flat = {}

        def put(o, v, n):
            if isinstance(v, tuple) and v and v[0] == "cells":
                for o2, v2, n2 in v[2:]:
                    put(o + o2, v2, n2)
            else:
                flat[o] = (v, n)
        for (b, o), (v, n) in mem.items():
            if b == base and off <= o < off + self.stride:
                put(o - off, v, n)
        i = flat.get(self.index[0])
        if i is None or i[0] not in self.rev:
            return None
        k = self.rev[i[0]]
        v = flat.get(self.size[k][0]) if k in self.size else (None,)
        t = flat.get(self.type[0])
        return k, v[0] if v else None, t[0] if t else None

    def read_inst(self, mem, base, n):
        op = mem.get((base, self.opcode[0]))
        return (op[0] if op else None), [self.read(mem, base, self.base + i * self.stride) for i in range(n)]


def target_enum(target, names=None):
    """instruction name -> opcode of a target (from the generated header, as compiled)"""
    gen = gen_headers()
    h = "%s/%s/InstInfoDecl.hpp" % (gen, target)
    txt = open(h).read()
    m = re.search(r"enum\s+%sInst\b[^{]*\{(.*?)\}" % target, txt, re.S)
    if not m:
        raise Broken("instruction enumeration of %s not found" % target)
    names = re.findall(r"^\s*(\w+)\s*(?:=[^,\n]*)?,", m.group(1), re.M)
    return const_values("%s/InstInfoDecl.hpp" % target, "cmmc::mir::%s::" % target, names, pre="#include <cmmc/CodeGen/MIR.hpp>\n")


VEC = '''
#include <cmmc/CodeGen/MIR.hpp>
#include <cstring>
using namespace cmmc; using namespace cmmc::mir;
extern "C" void* vk_vb(MIRFunction* f) { return f->args().data(); }
extern "C" void* vk_ve(MIRFunction* f) { return f->args().data() + f->args().size(); }
'''


def arg_vector():
    """offsets of the begin and end pointers of a machine function's parameter list"""
    bc = harness("mirargs", VEC)
    if bc is None:
        raise Broken("parameter list of machine functions not recognised")
    out = []
    for fn in ("vk_vb", "vk_ve"):
        r = run_tool("spec", {"modules": [bc], "root": "^%s$" % fn, "opaque": [], "queries": [{"id": "x"}], "cfg": True})
        t = [t for t in Machine(r["results"][0], lambda *a: None, [Ptr("F")]).run() if t.end == "ret"]
        offs = {x[2] for x in loads(t[0].ret) if x[1] == "F"}
        out.append(offs)
    b = out[0]
    e = out[1] - b
    if len(b) != 1 or len(e) != 1:
        raise Broken("parameter list of machine functions not recognised")
    return b.pop(), e.pop()


def loads(x):
    if isinstance(x, tuple):
        if x and x[0] == "ld":
            yield x
        for y in x:
            yield from loads(y)
