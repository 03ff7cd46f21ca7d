"""Lowering of IR instructions to generic machine instructions (CodeGen/Lowering.cpp), interpreted abstractly on one
IR instruction at a time: operands are distinct unknown values, the emitted machine instructions are recorded per
machine block."""
from vlib import *
import irsel
import irtypes
import heap
import mir
import isel
import absint
from absint import Machine, Ptr, Stop, sym
from terms import Undecided, Trap, sgn, uns

H = '''
#include <cmmc/IR/Block.hpp>
#include <cmmc/IR/Instruction.hpp>
#include <cmmc/IR/Type.hpp>
#include <cmmc/CodeGen/MIR.hpp>
#include <cmmc/Analysis/IntegerRange.hpp>
#include <cstring>
using namespace cmmc;
template <typename T> static void* raw(T it) { void* p; memcpy(&p, &it, 8); return p; }
extern "C" void* vk_bb(Block* b) { return raw(b->instructions().begin()); }
extern "C" void* vk_be(Block* b) { return raw(b->instructions().end()); }
using It = decltype(std::declval<Block>().instructions().begin());
extern "C" void* vk_nn(It it) { return raw(++it); }
extern "C" Instruction* vk_np(It it) { return &*it; }
extern "C" Block* vk_ib(Instruction* i) { return i->getBlock(); }
extern "C" const Type* vk_ae(ArrayType* t) { return t->getElementType(); }
extern "C" int vk_ac(ArrayType* t) { return (int)t->getElementCount(); }
extern "C" void* vk_jt(mir::MIRJumpTable* t) { return t->data().data(); }
extern "C" void* vk_je(mir::MIRJumpTable* t) { return t->data().data() + t->data().size(); }
'''


def leaves(x):
    return list(mir.loads(x))


class Layouts:
    """offsets of block lists, array types and jump tables, measured from the compiled accessors"""

    def __init__(self):
        bc = harness("lowerlayout", H.replace("#include <cmmc/Analysis/IntegerRange.hpp>\n", ""))
        if bc is None:
            raise Broken("block interface not recognised")

        def run(fn):
            r = run_tool("spec", {"modules": [bc], "root": "^%s$" % fn, "opaque": [], "queries": [{"id": "x"}], "cfg": True})
            ts = [t for t in Machine(r["results"][0], lambda *a: None, [Ptr("I")]).run() if t.end == "ret"]
            if not ts:
                raise Broken("block interface not recognised (%s)" % fn)
            return ts[0].ret

        def one(fn):
            o = {x[2] for x in leaves((run(fn),)) if x[1] == "I"}
            if len(o) != 1:
                raise Broken("layout not recognised (%s)" % fn)
            return o.pop()
        self.begin, self.next, self.ptr, self.block, self.elem, self.count, self.jb = (one("vk_" + k) for k in ("bb", "nn", "np", "ib", "ae", "ac", "jt"))
        e = run("vk_be")
        if not isinstance(e, Ptr):
            raise Broken("layout not recognised (end of a block)")
        self.end = e.off
        o = {x[2] for x in leaves((run("vk_je"),)) if x[1] == "I"} - {self.jb}
        self.je = o.pop() if o else self.jb + 8

    def blocklist(self, base, insts):
        m = {}
        nodes = [("obj", "node", base, i) for i in range(len(insts))]
        seq = [Ptr(n) for n in nodes] + [Ptr(base, self.end)]
        m[(base, self.begin)] = (seq[0], 8)
        for i, (n, p) in enumerate(zip(nodes, insts)):
            m[(n, self.next)] = (seq[i + 1], 8)
            m[(n, self.ptr)] = (p, 8)
        return m


CTX = r"LoweringContext::(map|new|emit|add|getData|getCodeGen|getCurrent|setCurrent|getModule|getPtr)"
MAPS = r"^std::(unordered_)?map<(long|cmmc::Block\*), .*>::(operator=|c?begin|c?end|c?rbegin|c?rend|find|at|size|empty|count)(<.*>)?$"
HASHED = r"^std::unordered_(map|set)<(cmmc::mir::MIROperand|unsigned int), .*>::(unordered_map|unordered_set|~unordered_map|~unordered_set|operator=|c?begin|c?end|find|at|size|empty|count|contains|insert|emplace|try_emplace|insert_or_assign|operator\\[\\]|clear|reserve|erase)(<.*>)?$"
ROPAQUE = [x for x in heap.OPAQUE if "map|unordered_map|~map" not in x] + [
    MAPS, HASHED, CTX, "CodeGenContext::", "DiagnosticsContext", "IntegerRangeAnalysisResult::query", "PointerAlignmentAnalysisResult::lookup", "cmmc::Target::", "IntegerType::get(Boolean)?$",
    "isSame$", "_Prime_rehash_policy::", "UserList", "String::", "StringFlyWeight", "MIRModule::globals", "std::list<"]
PTR = {"RISCV": "Int64", "MIPS": "Int32", "ARM": "Int32"}
TYS = {"i1": "Bool", "i8": "Int8", "i16": "Int16", "i32": "Int32", "i64": "Int64", "f32": "Float32"}


class Env(irsel.Env):
    def __init__(self, target, root, files):
        self.target = target
        super().__init__(files, root, ropaque=ROPAQUE)
        self.LL = Layouts()
        self.M = isel.Target(target)
        self.ot = self.M.ot
        self.ptype = PTR[target]

    def optype(self, t):
        return self.ptype if t == "ptr" else TYS[t]


class Hashed:
    """model of unordered containers keyed by machine operands or by numbers"""

    def __init__(self, L):
        self.L = L

    def key(self, m, b, o, num):
        if num:
            v = m.load(Ptr(b, o), 4, "i32")
            return v if isinstance(v, int) else None
        k = self.L.read(m.mem, b, o)
        if k is None or not isinstance(k[1], (int, Ptr, type(None))):
            return None
        return k[:2]

    def nodes(self, m, p):
        return m.mem.get((("hset",) + tuple(p[1:]), 0), (None, 8))[0]

    def setnodes(self, m, p, l):
        m.mem[(("hset",) + tuple(p[1:]), 0)] = (tuple(l), 8)
        for a, b in zip(l, tuple(l[1:]) + (None,)):
            m.mem[(a, 0)] = (Ptr(b) if b else 0, 8)

    def copy(self, m, src, dst, n):
        m.memop("llvm.memcpy", [dst, src, n])

    def add(self, m, p, src, num, vsrc=None, vsize=0, overwrite=False):
        """-> node, inserted"""
        src = m.addr(src)
        k = self.key(m, src.base, src.off, num)
        if k is None:
            raise Undecided("key of a hashed container")
        l = self.nodes(m, p)
        for n in l:
            if self.key(m, n, 8, num) == k:
                return n, 0
        i = m.mem.get((("hcount",), 0), (0, 8))[0]
        m.mem[(("hcount",), 0)] = (i + 1, 8)
        n = ("obj", "hnode", i)
        self.copy(m, src, Ptr(n, 8), 4 if num else self.L.stride)
        # the iteration order of a hashed container is not specified: newest first here, as libstdc++ has it
        self.setnodes(m, p, (n,) + l)
        return n, 1

    def call(self, m, name, a):
        x = re.search(r"std::unordered_(map|set)<(cmmc::mir::MIROperand|unsigned int), ?(cmmc::mir::MIROperand|unsigned int)?", name)
        kind, num = x.group(1), x.group(2) != "cmmc::mir::MIROperand"
        meth = heap.short(name)[1]
        voff = 8 + (8 if num and x.group(3) == "cmmc::mir::MIROperand" else 4 if num else self.L.stride)
        vsize = self.L.stride if x.group(3) == "cmmc::mir::MIROperand" else 4
        p = m.addr(a[0])
        if meth.startswith("unordered_"):
            self.setnodes(m, p, ())
            if len(a) > 2 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and a[1].base == a[2].base and kind == "set":
                st = 4 if num else self.L.stride
                for o in range(a[1].off, a[2].off, st):
                    self.add(m, p, Ptr(a[1].base, o), num)
            elif len(a) > 1 and isinstance(a[1], Ptr) and self.nodes(m, a[1]) is not None:
                raise Undecided("copy of a hashed container")
            return 0
        if meth.startswith("~"):
            return 0
        l = self.nodes(m, p)
        if l is None:
            # zero-initialised in place (element of a vector)
            l = ()
            self.setnodes(m, p, l)
        if meth in ("begin", "cbegin"):
            return Ptr(l[0]) if l else 0
        if meth in ("end", "cend"):
            return 0
        if meth == "size":
            return len(l)
        if meth == "empty":
            return int(not l)
        if meth == "reserve":
            return 0
        if meth == "clear":
            self.setnodes(m, p, ())
            return 0
        if meth in ("find", "count", "contains", "at", "erase"):
            q = m.addr(a[1])
            k = self.key(m, q.base, q.off, num)
            if k is None:
                raise Undecided("key of a hashed container")
            hit = [n for n in l if self.key(m, n, 8, num) == k]
            if meth == "find":
                return Ptr(hit[0]) if hit else 0
            if meth == "erase":
                self.setnodes(m, p, tuple(n for n in l if n not in hit))
                return len(hit)
            if meth == "at":
                if not hit:
                    raise Stop("throw")
                return Ptr(hit[0], voff)
            return len(hit)
        if meth == "operator[]":
            n, new = self.add(m, p, a[1], num)
            if new:
                m.memop("llvm.memset", [Ptr(n, voff), 0, vsize])
            return Ptr(n, voff)
        if meth in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            n, new = self.add(m, p, a[1], num)
            if kind == "map":
                if meth == "insert" or len(a) == 2:
                    src = Ptr(m.addr(a[1]).base, m.addr(a[1]).off + voff - 8)
                else:
                    src = m.addr(a[2])
                if new or meth == "insert_or_assign":
                    self.copy(m, src, Ptr(n, voff), vsize)
            return ("agg", Ptr(n), new)
        raise Undecided("hashed container: " + meth)


class Func:
    """one IR situation: values, blocks, and the machine function being built"""

    def __init__(self, env):
        self.E = env
        self.mem = dict(env.tmem)
        self.vals = {}     # base -> (kind, value, type name)
        self.nv = 0
        self.h = heap.Heap()
        self.hashed = Hashed(env.M.L)
        self.blocks = {}   # IR block -> machine block
        self.ranges = {}
        self.align = {}
        self.native = lambda op: 1
        self.heur = 0
        self.virtual = None
        self.dl = Ptr(("obj", "dl"))
        for o in (0, 8, 16):
            self.mem[(("obj", "list"), o)] = (0, 8)
        self.mem[(self.dl.base, 0)] = (Ptr("@vtable\x01for\x01cmmc::mir::%sDataLayout" % env.target, 16), 8)

    def value(self, ty, name=None, cls="LoadInst", op="Load"):
        """an IR value that already has a register"""
        self.nv += 1
        b = ("obj", "val", name or self.nv)
        E = self.E
        self.mem.update(E.L.inst(b, E.ids[op], E.ty[ty], [Ptr(("obj", "addr"))]))
        self.mem[(b, 0)] = (Ptr(E.vt(cls), 16), 8)
        self.vals[b] = ("reg", E.M.vreg + self.nv, E.optype(ty))
        return Ptr(b)

    def const(self, ty, v):
        self.nv += 1
        b = ("obj", "const", self.nv)
        E = self.E
        self.mem[(b, E.L.type)] = (E.ty[ty], 8)
        if ty == "f32":
            self.mem[(b, 0)] = (Ptr(E.vt("ConstantFloatingPoint"), 16), 8)
            self.mem[(b, E.off["fp"])] = (v, 8)
            self.vals[b] = ("reg", E.M.vreg + self.nv, "Float32")
        else:
            self.mem[(b, 0)] = (Ptr(E.vt("ConstantInteger"), 16), 8)
            self.mem[(b, E.off["int"])] = (v, 8)
            self.vals[b] = ("imm", v, E.optype(ty))
        return Ptr(b)

    def inst(self, op, ty, kids, cmp=None, cls=None, name="I"):
        E = self.E
        b = ("obj", "inst", name)
        self.mem.update(E.L.inst(b, E.ids[op], E.ty[ty] if isinstance(ty, str) else ty, kids))
        self.mem[(b, 0)] = (Ptr(E.vt(cls or irsel.CLASS.get(op, op + "Inst")), 16), 8)
        if cmp:
            self.mem[(b, E.L.cmp)] = (E.cmps[cmp], 4)
        return Ptr(b)

    def block(self, name, insts=()):
        b = ("obj", "block", name)
        self.mem.update(self.E.LL.blocklist(b, list(insts)))
        self.blocks[b] = ("obj", "mblock", name)
        return Ptr(b)

    def setblock(self, inst, block):
        self.mem[(inst.base, self.E.LL.block)] = (block, 8)

    def array(self, elem, n):
        """array type"""
        b = ("obj", "ty", "[%d x %s]" % (n, elem.base[2]))
        self.mem[(b, 0)] = (Ptr(self.E.vt("ArrayType"), 16), 8)
        self.mem[(b, self.E.LL.elem)] = (elem, 8)
        self.mem[(b, self.E.LL.count)] = (n, 4)
        return Ptr(b)

    def pointer(self, to):
        b = ("obj", "ty", "ptr", to.base[2])
        self.mem[(b, 0)] = (Ptr(self.E.vt("PointerType"), 16), 8)
        self.mem[(b, self.E.T.pointee[0])] = (to, 8)
        return Ptr(b)

    # ---- model of the opaque calls
    def put(self, m, dst, kind, v, ty):
        dst = m.addr(dst)
        for (b, o), x in self.E.M.L.operand(dst.base, dst.off, kind, v, self.E.ot[ty]).items():
            m.store(Ptr(b, o), x[0], x[1])

    def cell(self, m, k, d):
        return m.mem.get((("ctx", k), 0), (d, 8))[0]

    def setcell(self, m, k, v):
        m.mem[(("ctx", k), 0)] = (v, 8)

    def operand(self, m, p):
        p = m.addr(p)
        return self.E.M.L.read(m.mem, p.base, p.off)

    def call(self, m, n, a, e):
        E = self.E
        s = n.rsplit("::", 1)[-1]
        if "LoweringContext::" in n:
            if s == "emitCopy":
                self.emit(m, "Copy", [self.operand(m, a[1]), self.operand(m, a[2])])
                return 0
            if s == "emitInst":
                p = m.addr(a[1])
                op = m.mem.get((p.base, p.off + E.M.L.opcode[0]))
                if op is None or op[0] not in E.M.opname:
                    raise Undecided("opcode %r" % (op,))
                name = E.M.opname[op[0]]
                cnt = len(E.M.info[name]["operands"])
                self.emit(m, name, [E.M.L.read(m.mem, p.base, p.off + E.M.L.base + i * E.M.L.stride) for i in range(cnt)])
                return 0
            if s == "newVReg":
                t = a[2]
                if isinstance(t, Ptr):
                    t = self.typename(t)
                    t = E.optype(t)
                else:
                    t = E.M.tn.get(t)
                if t is None:
                    raise Undecided("type of a register")
                i = self.cell(m, "vreg", 0)
                self.setcell(m, "vreg", i + 1)
                self.put(m, a[0], "reg", E.M.vreg + 1000 + i, t)
                return 0
            if s == "mapOperand":
                b = a[2].base if isinstance(a[2], Ptr) else None
                extra = self.cell(m, ("mapped", b), None)
                if extra is not None:
                    self.put(m, a[0], *extra)
                    return 0
                if b not in self.vals:
                    raise Undecided("operand %r" % (a[2],))
                self.put(m, a[0], *self.vals[b])
                return 0
            if s == "addOperand":
                o = self.operand(m, a[2])
                self.setcell(m, "result", (a[1], o))
                return 0
            if s == "mapBlock":
                if not isinstance(a[1], Ptr) or a[1].base not in self.blocks:
                    raise Undecided("block %r" % (a[1],))
                return Ptr(self.blocks[a[1].base])
            if s == "mapGlobal":
                return Ptr(("obj", "mirglobal", a[1]))
            if s == "addBlockAfter":
                i = self.cell(m, "nblock", 0)
                self.setcell(m, "nblock", i + 1)
                order = list(self.cell(m, "order", (("obj", "mblock", "cur"),)))
                cur = self.cell(m, "cur", ("obj", "mblock", "cur"))
                new = ("obj", "mblock", ("new", i))
                order.insert(order.index(cur) + 1, new)
                self.setcell(m, "order", tuple(order))
                return Ptr(new)
            if s == "setCurrentBasicBlock":
                self.setcell(m, "cur", a[1].base)
                return 0
            if s == "getCurrentBasicBlock":
                return Ptr(self.cell(m, "cur", ("obj", "mblock", "cur")))
            if s == "getDataLayout":
                return self.dl
            if s == "getPtrType":
                return E.ot[E.ptype]
            return Ptr(("obj", s))
        if n.endswith("IntegerRangeAnalysisResult::query"):
            # (sret, this, value, dom, ctx, depth)
            r = self.ranges.get(a[2].base if isinstance(a[2], Ptr) else None)
            if r is None:
                raise Undecided("range of %r" % (a[2],))
            d = m.addr(a[0])
            for o, x in r.items():
                m.store(Ptr(d.base, d.off + o), x[0], x[1])
            return 0
        if n.endswith("PointerAlignmentAnalysisResult::lookup"):
            return self.align.get(a[1].base if isinstance(a[1], Ptr) else None, 1)
        if n.startswith("std::unordered_") and re.search(HASHED, n):
            return self.hashed.call(m, n, a)
        if n.endswith("_Prime_rehash_policy::_M_next_bkt"):
            return a[1] if isinstance(a[1], int) else 1
        if n.endswith("_Prime_rehash_policy::_M_need_rehash"):
            return ("agg", 0, 0)
        if n == "indirect":
            r = self.virtual(self, m, a, e) if self.virtual else None
            if r is not None:
                return r
            if len(a) == 3 and isinstance(a[2], int):
                return int(self.native(a[2]))
        if n.endswith("isSame"):
            x, y = self.typename(a[0]), self.typename(a[1])
            return int(x == y)
        if n.endswith("IntegerType::getBoolean"):
            return E.ty["i1"]
        if n.endswith("IntegerType::get"):
            return E.ty.get("i%d" % a[0]) if isinstance(a[0], int) else None
        if re.search(r"MIRModule::globals$|^std::(__cxx11::)?list<", n):
            return Ptr(("obj", "list"))
        if "cmmc::String" in n:
            if a and isinstance(a[0], Ptr) and e.get("ty") != "void" and "operator" not in n:
                return Ptr(("obj", "string"))
            return 0
        return self.h.call(m, n, a, e)

    def typename(self, p):
        t = irsel.tname(p)
        if t is None:
            raise Undecided("type %r" % (p,))
        return t

    def emit(self, m, name, ops):
        cur = self.cell(m, "cur", ("obj", "mblock", "cur"))
        if any(o is None for o in ops):
            raise Undecided("operand of %s not readable" % name)
        for k, v, ty in ops:
            if k == "imm" and not isinstance(v, int):
                raise Undecided("immediate of %s: %r" % (name, v))
        m.events.append(("EMIT", cur, name, tuple(ops)))

    def load(self, m, p, size, ty):
        if isinstance(p.base, str) and ("guard" in p.base or "_ZGV" in p.base):
            return 0
        if isinstance(p.base, tuple) and p.base[0] == "obj" and p.base[1] == "getOptHeuristic":
            return self.heur
        return None

    def run(self, fn, args, **kw):
        kw.setdefault("visits", 400)
        kw.setdefault("max_steps", 60000)
        kw.setdefault("max_traces", 64)
        m = Machine(fn, self.call, args, mem0=self.mem, funcs=self.E.funcs, table=self.E.table, keep=lambda k: True, load=self.load, **kw)
        ts = m.run()
        if m.truncated or not ts:
            raise Undecided("interpretation cut off")
        return ts


class Code:
    """machine blocks built on one path"""

    def __init__(self, env, t):
        self.E = env
        cell = lambda k, d: t.mem.get((("ctx", k), 0), (d, 8))[0]
        self.order = cell("order", (("obj", "mblock", "cur"),))
        self.blocks = {}
        self.aux = []
        for x in t.events:
            if x[0] == "EMIT":
                ops = [isel.Op(k, (v.base if isinstance(v, Ptr) else v) if k == "reloc" else v, env.M.tn.get(ty, ty)) for k, v, ty in x[3]]
                self.blocks.setdefault(x[1], []).append(isel.Inst(x[2], ops))
            elif x[0] == "AUX":
                self.blocks.setdefault(x[1], []).append(x[2])
        self.result = cell("result", None)

    def op(self, o):
        k, v, ty = o
        return isel.Op(k, v, self.E.M.tn.get(ty, ty))

    def execute(self, X, env, mem, aux=None):
        """runs the blocks from the first one; -> IR block reached (machine block base), "end", or ("trap",)"""
        i = 0
        for _ in range(20):
            nxt = None
            for ins in self.blocks.get(self.order[i], []):
                if not isinstance(ins, isel.Inst):
                    nxt = aux(ins, env)
                    break
                r = X.step(ins, env, mem)
                if r is None:
                    continue
                if r[0] == "branch":
                    if r[1]:
                        nxt = r[2]
                        break
                    continue
                return r
            if nxt is None:
                i += 1
                if i >= len(self.order):
                    return "end"
                continue
            if nxt in self.order:
                i = self.order.index(nxt)
                continue
            return nxt
        raise Undecided("too many blocks")
