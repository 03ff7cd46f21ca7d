"""Instruction selection of a target, one instruction tree at a time: the selector's residual graph is
interpreted on an instruction whose operands are described by a plan; registers whose definition the
selector asks about get plans of their own (demand-driven), and what is emitted is compared with
what it replaces on a grid of register contents."""
import itertools
import math
import multiprocessing
import re
import time
from vlib import *
from terms import Undecided, Trap, sgn, uns
from absint import Machine, Ptr, Stop, sym, const_table
import isa, mir, mach
from mach import Undef, Unknown, BITS

GENERIC = ["Jump", "Branch", "Unreachable", "Load", "Store", "Add", "Sub", "Mul", "UDiv", "URem", "And", "Or", "Xor", "Shl", "LShr", "AShr", "SDiv", "SRem",
           "SMin", "SMax", "Neg", "Abs", "FAdd", "FSub", "FMul", "FDiv", "FNeg", "FAbs", "FFma", "ICmp", "FCmp", "SExt", "ZExt", "Trunc", "F2U", "F2S", "U2F", "S2F",
           "FCast", "Copy", "Select", "LoadGlobalAddress", "LoadImm", "LoadStackObjectAddr", "CopyFromReg", "CopyToReg", "LoadImmToReg", "LoadRegFromStack", "StoreRegToStack"]
OPAQUE = ["ISelContext::(lookupDef|newInst|hasOneUse|isSafeToUse|isDefinedAfter|getRegRef|removeInst|replaceOperand|blockReplace|getInst|getCurrentInstIter|runISel)",
          "CodeGenContext::nextId"]
SIZE = {"Bool": 1, "Int8": 1, "Int16": 2, "Int32": 4, "Int64": 8, "Float32": 4}
INTBIN = ("Add", "Sub", "Mul", "UDiv", "URem", "And", "Or", "Xor", "Shl", "LShr", "AShr", "SDiv", "SRem", "SMin", "SMax")
FPBIN = ("FAdd", "FSub", "FMul", "FDiv")
RELOC = 0x12345FFC
STACK0 = 0x40000


class Op(tuple):
    """kind, value, type name; kinds: reg imm reloc prob none"""
    __slots__ = ()

    def __new__(cls, k, v=None, t="Special"):
        return tuple.__new__(cls, (k, v, t))

    def __getnewargs__(self):
        return tuple(self)

    kind = property(lambda s: s[0])
    v = property(lambda s: s[1])
    t = property(lambda s: s[2])

    def __repr__(self):
        k, v, t = self
        return {"reg": "%%%s:%s" % (v, t), "imm": "%s:%s" % (v, t), "reloc": "@%s" % (v,), "prob": "p", "none": "-"}[k]


class Inst:
    __slots__ = ("name", "ops")

    def __init__(self, name, ops):
        self.name, self.ops = name, list(ops)

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(map(repr, self.ops)))


class Target:
    """what the selector of one target needs to be interpreted"""

    def __init__(self, name):
        self.name = name
        self.L = mir.Layout()
        self.ot = enum_values("cmmc/CodeGen/MIR.hpp", "OperandType", "cmmc::mir::")
        self.tn = {v: n for n, v in self.ot.items()}
        k = const_values("cmmc/CodeGen/MIR.hpp", "cmmc::mir::", ["virtualRegBegin", "stackObjectBegin", "ISASpecificBegin", "invalidReg"])
        self.vreg, self.stk, self.isabegin = k["virtualRegBegin"], k["stackObjectBegin"], k["ISASpecificBegin"]
        g = const_values("cmmc/CodeGen/MIR.hpp", "cmmc::mir::", ["Inst" + n for n in GENERIC])
        self.num = {n: g["Inst" + n] for n in GENERIC}
        self.num.update(mir.target_enum(name))
        self.opname = {v: n for n, v in self.num.items()}
        self.info = dict(isa.insts("Generic"))
        self.info.update(isa.insts(name))
        self.fl = enum_values("cmmc/CodeGen/InstInfo.hpp", "InstFlag", "cmmc::mir::")
        self.cmp = enum_values("cmmc/IR/Instruction.hpp", "CompareOp", "cmmc::")
        self.cmpname = {v: n for n, v in self.cmp.items()}

    def flags(self, opc):
        n = self.opname.get(opc)
        v = 0
        for f in (self.info.get(n, {}).get("Flag") or []):
            v |= self.fl.get("InstFlag" + f, 0)
        return v

    # ---- memory image
    def cells(self, base, inst, remap=None):
        L = self.L
        ops = []
        for o in inst.ops:
            v = o.v
            if o.kind == "reloc":
                v = Ptr(("obj", "reloc", o.v))
            elif o.kind == "prob":
                v = 0.5
            elif o.kind == "none":
                v = 0
            ops.append((o.kind, v, self.ot[o.t]))
        while len(ops) < 7:
            ops.append(("none", 0, self.ot["Special"]))
        m = L.inst(base, self.num[inst.name], ops)
        return m

    def readop(self, mem, base, off):
        x = self.L.read(mem, base, off)
        if x is None:
            raise Undecided("operand not readable at %r" % (base,))
        k, v, t = x
        t = self.tn.get(t, t)
        if k == "reloc":
            v = v.base[2] if isinstance(v, Ptr) and isinstance(v.base, tuple) else v
        if k == "prob" or k == "none":
            v = None
        if sym(v) or not isinstance(t, str):
            raise Undecided("operand not concrete: %r" % (x,))
        return Op(k, v, t)

    def readinst(self, mem, base):
        o = mem.get((base, self.L.opcode[0]))
        if o is None or o[0] not in self.opname:
            raise Undecided("opcode not concrete: %r" % (o,))
        n = self.opname[o[0]]
        cnt = len(self.info[n]["operands"])
        return Inst(n, [self.readop(mem, base, self.L.base + i * self.L.stride) for i in range(cnt)])

    def defidx(self, name):
        for i, o in enumerate(self.info[name]["operands"]):
            if o["flag"] == "Def":
                return i
        return None


class Plan:
    """root instruction, definitions of registers (reg number -> Inst)"""
    __slots__ = ("root", "defs", "depth")

    def __init__(self, root, defs=None, depth=0):
        self.root, self.defs, self.depth = root, dict(defs or {}), depth

    def key(self):
        return repr((self.root, sorted((k, repr(v)) for k, v in self.defs.items())))

    def __repr__(self):
        return "%s%s" % (self.root, "".join("; %%%s = %s" % (k, v) for k, v in sorted(self.defs.items())))


class Result:
    __slots__ = ("seq", "replace", "removed", "root", "assume", "ret", "changed", "end", "block")


class Selector:
    def __init__(self, target, fn, funcs, table, complex_=False, nargs=4):
        self.T, self.fn, self.funcs, self.table = target, fn, funcs, table
        self.complex_ = complex_

    def roots(self):
        """opcodes the selector distinguishes at the root"""
        asked = {}
        self.run(None, asked)
        return sorted(self.T.opname[k] for k in asked.get("root", ()) if k in self.T.opname)

    def run(self, plan, asked):
        """-> list of Result; asked: dict reg -> set of opcode numbers the selector compares its definition with"""
        T, L = self.T, self.T.L
        mem = {}
        INST, CTX = ("obj", "inst", "root"), ("obj", "ctx")
        if plan is None:
            mem[(INST, L.opcode[0])] = (("opc", "root"), L.opcode[1])
            plan = Plan(None)
        else:
            mem.update(T.cells(INST, plan.root))
        objects = {}
        for r, d in plan.defs.items():
            b = ("obj", "def", r)
            mem.update(T.cells(b, d))
            objects[b] = d

        def rd(m, p, hint=None):
            p = m.addr(p)
            return T.readop(m.mem, p.base, p.off)

        def call(m, n, a, e):
            s = n.split("(")[0]
            s = s[s.rfind("::") + 2:] if "::" in s else s
            if s == "lookupDef":
                o = rd(m, a[1])
                if o.kind != "reg":
                    return 0
                if o.v in plan.defs:
                    return Ptr(("obj", "def", o.v))
                if o.v < T.vreg or o.v >= T.stk:
                    return 0
                # defined by a new instruction?
                for k, b in enumerate(m.newinsts):
                    try:
                        ni = T.readinst(m.mem, b)
                    except Undecided:
                        continue
                    di = T.defidx(ni.name)
                    if di is not None and ni.ops[di].v == o.v:
                        return 0    # not in the map of the current block yet
                return Ptr(("obj", "sym", o.v))
            if s == "newInst":
                opc = a[1]
                if sym(opc):
                    raise Undecided("opcode of a new instruction not concrete: %r" % (opc,))
                b = ("obj", "new", len(m.newinsts))
                m.newinsts.append(b)
                m.mem[(b, L.opcode[0])] = (opc, L.opcode[1])
                for i in range(7):
                    for k, v in L.operand(b, L.base + i * L.stride, "none", None, T.ot["Special"]).items():
                        m.mem[k] = v
                return Ptr(b)
            if s == "nextId":
                m.ids += 1
                return m.ids
            if s == "getInstDef":
                p = m.addr(a[1])
                o = m.mem.get((p.base, L.opcode[0]))
                if o is None or sym(o[0]):
                    raise Undecided("getInstDef of an unknown instruction")
                i = T.defidx(T.opname[o[0]])
                if i is None:
                    raise Stop("noreturn")
                return Ptr(p.base, p.off + L.base + i * L.stride)
            if s == "removeInst":
                m.removed.append(m.addr(a[1]).base)
                return ("void",)
            if s == "blockReplace":
                m.blocked.append(m.addr(a[1]).base)
                return ("void",)
            if s == "replaceOperand":
                x, y = rd(m, a[1]), rd(m, a[2])
                if x.kind != "reg":
                    raise Undecided("replaced operand is not a register")
                if x[:2] != y[:2]:
                    m.replaced.setdefault(x.v, y)
                return ("void",)
            if s == "hasOneUse":
                o = rd(m, a[1])
                return ("one-use", o.v)
            if s in ("isSafeToUse",):
                return ("safe", len(m.events))
            if s == "getRegRef":
                # sret optional<MIROperand>
                sret, reg = a[0], rd(m, a[2])
                p = m.addr(sret)
                for k, v in L.operand(p.base, p.off, "reg", reg.v, T.ot[reg.t]).items():
                    m.mem[k] = v
                m.mem[(p.base, p.off + L.stride)] = (1, 1)
                return ("void",)
            if s == "indirect":
                if len(a) >= 3 and (isinstance(a[-1], int) or leaf_opc(a[-1]) is not None):
                    return Ptr(("obj", "info", a[-1]))
                x = m.addr(a[-1])
                if isinstance(x.base, tuple) and x.base[:2] == ("obj", "info"):
                    return T.flags(x.base[2]) if isinstance(x.base[2], int) else 0
                if len(a) == 3 and isinstance(x.base, tuple):
                    o = m.mem.get((x.base, L.opcode[0]))
                    if o and not sym(o[0]):
                        return Ptr(("obj", "info", o[0]))
                raise Undecided("virtual call not recognised: %r" % (a,))
            if s.startswith(("__cxa_throw", "reportUnreachable", "__throw")):
                raise Stop("noreturn")
            return None

        def load(m, p, size, ty):
            b = p.base
            if isinstance(b, tuple) and b[:2] == ("obj", "sym"):
                if p.off == L.opcode[0]:
                    return ("opc", b[2])
                raise Undecided("operand of an instruction of unknown kind")
            return None

        def decide(m, v):
            if v[0] == "icmp-eq" and isinstance(v[1], tuple) and v[1][0] == "opc" and isinstance(v[2], int):
                asked.setdefault(v[1][1], set()).add(v[2])
                return False
            x = leaf_opc(v)
            if x is not None:
                # a comparison of another shape: record the opcodes it accepts, unless it says next to nothing about them
                yes = [n for n in T.opname if ev_opc(v, n)]
                if len(yes) <= 16:
                    asked.setdefault(x, set()).update(yes)
                return False
            return None

        class M(Machine):
            def trace(self):
                self.newinsts, self.removed, self.blocked, self.replaced, self.ids = [], [], [], {}, 5000
                self.escaped_all = True
                return super().trace()
        m = M(self.fn, call, [None, Ptr(INST), Ptr(CTX), int(self.complex_)], decide=decide, load=load, mem0=mem, funcs=self.funcs, table=self.table,
              visits=80, max_traces=400, max_steps=20000, keep=lambda k: True)
        m.newinsts, m.removed, m.blocked, m.replaced, m.ids = [], [], [], {}, 5000
        out = []
        # run() collects traces; the model's state must be captured per trace
        orig = M.trace

        def trace():
            t = orig(m)
            if t is not None:
                t.env = (list(m.newinsts), list(m.removed), list(m.blocked), dict(m.replaced))
            return t
        m.trace = trace
        ts = m.run()
        if m.truncated:
            raise Undecided("interpretation cut off")
        for t in ts:
            new, removed, blocked, replaced = t.env
            r = Result()
            r.assume, r.end, r.ret = t.assume, t.end, t.ret
            r.changed = False
            if t.end != "ret" or plan.root is None:
                out.append(r)
                continue
            if sym(t.ret):
                raise Undecided("result not concrete: %r" % (t.ret,))
            r.root = T.readinst(t.mem, INST)
            r.changed = bool(new or removed or replaced) or repr(r.root) != repr(plan.root)
            seq = [(b, T.readinst(t.mem, b)) for b in new]
            if INST not in removed:
                seq.append((INST, r.root))
            r.seq = [i for b, i in seq if b not in removed]
            r.block = [i for b, i in seq if b in blocked]
            r.removed = [b[2] for b in removed if b[:2] == ("obj", "def")]
            r.replace = replaced
            # definitions changed in place
            for b, d in objects.items():
                if repr(T.readinst(t.mem, b)) != repr(d):
                    r.seq = None
            out.append(r)
        return out


def leaf_opc(v):
    if isinstance(v, tuple):
        if v and v[0] == "opc":
            return v[1]
        for x in v[1:]:
            y = leaf_opc(x)
            if y is not None:
                return y
    return None


def ev_opc(v, n):
    """truth of a condition over one opcode"""
    m = Machine({"blocks": []})
    m.assume, m.eqv = {}, {}

    def go(x):
        if isinstance(x, tuple):
            if x[0] == "opc":
                return n
            return m.op(x[0], [go(y) for y in x[1:]])
        return x
    try:
        r = go(v)
        return bool(r) if not sym(r) else True
    except Undecided:
        return True


# ---------------------------------------------------------------- plans
IMMS = [0, 1, -1, 2, -2, 3, 4, 5, 7, 8, 10, 16, 24, 31, 32, 33, 48, 63, 64, 100, 127, 128, -128, 255, 256, 1000, -1000, 2047, 2048, -2048, -2049, 4095, 4096, -4096, 6144,
        32767, 32768, -32768, 65535, 65536, -65536, 0x12345, 0x7ff000, 0x100000, 0x12345678, -0x12345678, 0x7fffffff, -0x80000000, -0x7fffffff, 0x7ffff000,
        0x80000000, 0xffffffff, 0x100000000, -0x80000001, 0x123456789abcdef, 2**62, 2**63 - 1, -2**63]
WIDE = sorted(set(IMMS) | set(range(-20, 71)) | {s * ((1 << k) + d) for k in range(3, 63) for d in (-1, 0, 1) for s in (1, -1)})
FEW = [0, 1, -1, 2, 3, 8, 16, 31, 32, 48, 63, 255, 2047, -2048, 2048, 65535, 0x12345678, -0x80000000, 0x7fffffff, 0xffffffff, 2**40]
EDGE = FEW + [-255, -256, 256, 1020, 1024, -1024, 2049, -2049, 4095, -4095, 4096, 32767, 32768, -32768, -32769, 65536]
TINY = [0, 1, -1, 3, 16, 31, 32, 2048, 0xffffffff]
LITTLE = [0, 1, 5, -1]


def fits(v, t):
    if t == "Bool":
        return v in (0, 1)
    if t in BITS:
        return -(1 << (BITS[t] - 1)) <= v < (1 << (BITS[t] - 1))
    return True


class Planner:
    def __init__(self, target, ints, ptr, zero=None, special=None):
        """ints: integer types the target computes with; ptr: type of addresses; zero: number of the zero register; special: operand class -> ISA register"""
        self.T, self.ints, self.ptr, self.zero, self.special = target, ints, ptr, zero, special or {}
        self.small = [t for t in ("Bool", "Int8", "Int16") if t not in ints]

    # signatures: list of (dst type, [operand choices]); a choice is ("r", type) | ("i", type) | ("cc", kind) | ("lit", Op)
    def sigs(self, name, dst=None):
        """operand signatures of an instruction whose result has type dst (None: every)"""
        I = self.ints
        al = ("lit", Op("imm", 4, "Special"))
        out = []

        def val(t):
            return [("r", t), ("i", t)]

        if name in ("Add", "Sub", "Mul", "UDiv", "URem", "SMin", "SMax", "And", "Or", "Xor", "Shl", "LShr", "AShr"):
            ts = [t for t in I if t != "Bool" or name in ("And", "Or", "Xor")]
            for t in ts:
                for a in val(t):
                    for b in val(t):
                        if a[0] == "i" and b[0] == "i":
                            continue
                        out.append((t, [a, b]))
            if name == "And":
                # narrowing without sign: the mask of the narrower type, typed like the source
                for t in I:
                    for s in I:
                        if 32 <= BITS[t] <= BITS[s] and BITS[t] < 64:
                            out.append((t, [("r", s), ("lit", Op("imm", (1 << BITS[t]) - 1, s))]))
        elif name in ("SDiv", "SRem"):
            for t in [t for t in I if t != "Bool"]:
                for hint in ((32, 0, 0), (32, 0, 7), (32, 4, 4), (6, 3, 0), (5, 3, 7)):
                    h = [("lit", Op("imm", x, "Special")) for x in hint]
                    for a in val(t):
                        for b in val(t):
                            if a[0] == "i" and b[0] == "i":
                                continue
                            out.append((t, [a, b] + h))
        elif name in ("Neg", "Abs"):
            out += [(t, [("r", t)]) for t in I if t != "Bool"]
        elif name in FPBIN:
            out.append(("Float32", [("r", "Float32"), ("r", "Float32")]))
        elif name in ("FNeg", "FAbs"):
            out.append(("Float32", [("r", "Float32")]))
        elif name == "FFma":
            out.append(("Float32", [("r", "Float32")] * 3))
        elif name == "ICmp":
            for t in I:
                for a in val(t):
                    for b in val(t):
                        if a[0] == "i" and b[0] == "i":
                            continue
                        out.append(("Bool", [a, b, ("cc", "i" if t != "Bool" else "e")]))
        elif name == "FCmp":
            out.append(("Bool", [("r", "Float32"), ("r", "Float32"), ("cc", "f")]))
        elif name in ("SExt", "ZExt", "Trunc"):
            full = [t for t in ("Bool", "Int8", "Int16", "Int32", "Int64") if t in I or t in self.small]
            for t in full:
                for s in full:
                    if (BITS[s] < BITS[t]) == (name != "Trunc") and s != t and not (name == "SExt" and s == "Bool" or name == "Trunc" and t == "Bool"):
                        out.append((t, [("r", s)]))
        elif name in ("F2S", "F2U"):
            out += [(t, [("r", "Float32")]) for t in I if t == "Int32"]
        elif name in ("S2F", "U2F"):
            out += [("Float32", [("r", t)]) for t in I if t == "Int32"]
        elif name == "Load":
            out += [(t, [("r", self.ptr), ("lit", Op("imm", SIZE[t], "Special"))]) for t in ("Bool", "Int8", "Int16", "Int32", "Int64", "Float32") if t in I or t in self.small or t == "Float32"]
        elif name == "Store":
            for t in ("Bool", "Int8", "Int16", "Int32", "Int64", "Float32"):
                if t in I or t in self.small or t == "Float32":
                    for a in (val(t) if t != "Float32" else [("r", t)]):
                        out.append((None, [("r", self.ptr), a, ("lit", Op("imm", SIZE[t], "Special"))]))
        elif name == "Branch":
            out.append((None, [("r", "Bool"), ("lit", Op("reloc", "target")), ("lit", Op("prob"))]))
        elif name == "Jump":
            out.append((None, [("lit", Op("reloc", "target"))]))
        elif name == "Unreachable":
            out.append((None, []))
        elif name == "Select":
            for t in I + ["Float32"]:
                for a in (val(t) if t != "Float32" else [("r", t)]):
                    for b in (val(t) if t != "Float32" else [("r", t)]):
                        out.append((t, [("r", "Bool"), a, b]))
        elif name == "LoadImm":
            out += [(t, [("i", t)]) for t in I]
        elif name == "LoadGlobalAddress":
            out.append((self.ptr, [("lit", Op("reloc", "sym"))]))
        elif name == "LoadStackObjectAddr":
            out.append((self.ptr, [("lit", Op("reg", self.T.stk + 3, self.ptr))]))
        elif name in ("Copy",):
            out += [(t, [("r", t)]) for t in I + ["Float32"]]
        elif name in self.T.info and name not in GENERIC:
            out += self.target_sigs(name)
        return [s for s in out if dst is None or s[0] == dst]

    def target_sigs(self, name):
        info = self.T.info[name]["operands"]
        out = []
        fp = ("FPR", "FPR32", "DPR", "SPR")
        fmt = self.T.info[name].get("Format") or [""]
        word = self.T.name == "RISCV" and re.match(r"[a-z]+w\b", str(fmt[0]).strip()) is not None
        for t in (["Int32"] if word else self.ints):
            ops, dst, ok = [], None, True
            for o in info:
                cl = o["class"]
                if cl in self.special:
                    if o["flag"] == "Def":
                        ok = False
                    x = self.special[cl]
                    ops.append([("one", tuple(x))] if isinstance(x, list) else [("lit", Op("reg", x, "Special"))])
                elif o["flag"] == "Def":
                    dst = "Float32" if cl in fp else t
                elif cl in fp:
                    ops.append([("r", "Float32")])
                elif cl in ("GPR", "BaseLike", "GPRLike", "IReg"):
                    ops.append([("r", self.ptr if cl == "BaseLike" else t)])
                elif cl in ("IRegOrImm", "Op2"):
                    ops.append([("r", t), ("i", t)])
                elif cl == "CC":
                    ops.append([("cc", "i")])
                elif "Imm" in cl:
                    ops.append([("i", "Bool" if o["name"] == "Flip" else "Int32")])
                elif cl == "Align":
                    ops.append([("lit", Op("imm", 4, "Special"))])
                else:
                    ok = False
            if ok and dst is not None:
                out += [(dst, list(x)) for x in itertools.product(*ops)]
        return [s for i, s in enumerate(out) if s not in out[:i]]

    def fill(self, name, sig, fresh, limit, immfilter=None):
        """instructions of a signature: registers get numbers from fresh(), immediates run over a grid"""
        dst, ops = sig
        dims = []
        ni = sum(1 for o in ops if o[0] == "i")
        for grid in (IMMS, EDGE, FEW, TINY, LITTLE):
            dims, size = [], 1
            for o in ops:
                if o[0] == "r":
                    d = [o]
                elif o[0] == "i":
                    d = [Op("imm", v, o[1]) for v in grid if fits(v, o[1]) or o[1] not in BITS]
                elif o[0] == "cc":
                    k = o[1]
                    names = [n for n in self.T.cmp if n.startswith("FCmp" if k == "f" else "ICmp")]
                    if k == "e":
                        names = ["ICmpEqual", "ICmpNotEqual"]
                    if size * len(names) > limit:
                        names = names[:4]
                    d = [Op("imm", self.T.cmp[n], "Special") for n in names]
                else:
                    d = [o[1]]
                dims.append(d)
                size *= len(d)
            if size <= limit:
                break
        di = self.T.defidx(name)
        for combo in itertools.product(*dims):
            l = [Op("reg", fresh(i, x[1]), x[1]) if x[0] == "r" else x for i, x in enumerate(combo)]
            if dst is not None:
                l.insert(di if di is not None else 0, None)
            yield l, dst


# ---------------------------------------------------------------- shapes: instruction trees without immediate values
def shape_leaves(sh, path=()):
    """(path, choice) of the leaves of a shape, in operand order"""
    name, sig, kids = sh
    kids = dict(kids)
    for i, o in enumerate(sig[1]):
        if i in kids:
            yield from shape_leaves(kids[i], path + (i,))
        else:
            yield path + (i,), o


def with_child(sh, path, child):
    name, sig, kids = sh
    kids = dict(kids)
    if len(path) == 1:
        kids[path[0]] = child
    else:
        kids[path[0]] = with_child(kids[path[0]], path[1:], child)
    return name, sig, tuple(sorted(kids.items()))


def freeze(sig):
    return sig[0], tuple(sig[1])


def show_shape(sh):
    name, sig, kids = sh
    kids = dict(kids)
    return "%s%s(%s)" % (name, ":" + sig[0] if sig[0] else "", ", ".join(show_shape(kids[i]) if i in kids else (o[1] if o[0] in "ri" and o[0] == "r" else "imm" if o[0] == "i" else o[0] if o[0] == "cc" else "_") for i, o in enumerate(sig[1])))


class Instances:
    def __init__(self, T, zero=None):
        self.T, self.zero = T, zero

    def build(self, sh, values, regs):
        """values: path -> Op for non-register leaves; regs: path -> Op; -> Plan"""
        T = self.T
        defs = {}
        cnt = [0]

        def mk(s, path, dst):
            name, sig, kids = s
            kids = dict(kids)
            ops = []
            for i, o in enumerate(sig[1]):
                p = path + (i,)
                if i in kids:
                    cnt[0] += 1
                    r = Op("reg", T.vreg + 100 + cnt[0], o[1])
                    defs[r.v] = mk(kids[i], p, r)
                    ops.append(r)
                else:
                    ops.append(regs[p] if o[0] == "r" else values[p])
            if dst is not None:
                di = T.defidx(name)
                ops.insert(di if di is not None else 0, dst)
            return Inst(name, ops)
        t = sh[1][0]
        root = mk(sh, (), Op("reg", T.vreg + 99, t) if t else None)
        return Plan(root, defs)

    def all(self, sh, limit, alias=True):
        T = self.T
        leaves = list(shape_leaves(sh))
        rl = [(p, o[1]) for p, o in leaves if o[0] == "r"]
        distinct = {p: Op("reg", T.vreg + 1 + i, t) for i, (p, t) in enumerate(rl)}
        assigns = [(distinct, False)]
        if alias:
            for i in range(len(rl)):
                for j in range(i):
                    if rl[i][1] == rl[j][1]:
                        d = dict(distinct)
                        d[rl[i][0]] = d[rl[j][0]]
                        assigns.append((d, True))
            if self.zero is not None:
                for p, t in rl:
                    if t in BITS:
                        d = dict(distinct)
                        d[p] = Op("reg", self.zero, t)
                        assigns.append((d, True))
        for d, al in assigns:
            for grid in ((TINY, LITTLE) if al else (WIDE, IMMS, EDGE, FEW, TINY, LITTLE)):
                dims, size = [], 1
                for p, o in leaves:
                    if o[0] == "r":
                        continue
                    if o[0] == "i":
                        l = [Op("imm", v, o[1]) for v in grid if fits(v, o[1])]
                    elif o[0] == "one":
                        l = list(o[1])
                        if al or grid is LITTLE:
                            l = l[::3] if len(l) > 4 else l
                    elif o[0] == "cc":
                        names = [n for n in T.cmp if n.startswith("FCmp" if o[1] == "f" else "ICmp")]
                        if o[1] == "e":
                            names = [n for n in names if "qual" in n and not n.endswith(("ThanEqual", "LessEqual", "GreaterEqual"))]
                        l = [Op("imm", T.cmp[n], "Special") for n in names]
                        if al or grid is LITTLE:
                            l = l[::2] if len(l) > 4 else l
                    else:
                        l = [o[1]]
                    dims.append((p, l))
                    size *= len(l)
                if size <= (limit // 4 if al else limit):
                    break
            for combo in itertools.product(*[l for _, l in dims]):
                yield self.build(sh, {p: v for (p, _), v in zip(dims, combo)}, d)


# ---------------------------------------------------------------- evaluation
CORNER = {
    "Bool": [0, 1],
    "Int8": [0, 1, -1, 127, -128, 100],
    "Int16": [0, 1, -1, 32767, -32768, 255, 1000],
    "Int32": [0, 1, -1, 2, -2, 7, 31, 32, 255, -256, 65536, 0x12345678, -0x12345678, 0x7fffffff, -0x80000000, 1000003, -7, 0x40000000],
    "Int64": [0, 1, -1, 2, -2, 31, 32, 63, 0x12345678, -0x12345678, 0x7fffffff, -0x80000000, 0x80000000, 0xffffffff, 1 << 32, 2**63 - 1, -2**63, 0x123456789abcdef, -7],
    "Float32": [0, 0x80000000, 0x3f800000, 0xbfc00000, 0x40200000, 0x7f800000, 0xff800000, 0x7fc00000, 0x501502f9, 0x00000123, 0xc0e00000, 0x4b000001, 0xcf000000],
}
SHORT = {
    "Bool": [0, 1], "Int8": [0, -1, 127], "Int16": [0, -1, 32767],
    "Int32": [0, 1, -1, 31, 0x12345678, -0x80000000, 0x7fffffff], "Int64": [0, 1, -1, 32, 0xffffffff, -2**63, 0x123456789abcdef],
    "Float32": [0x80000000, 0x3f800000, 0xbfc00000, 0x7fc00000, 0x7f800000, 0x40490fdb],
}
MINI = {"Bool": [0, 1], "Int8": [-1, 5], "Int16": [-1, 300], "Int32": [1, -7, 0x7fffffff], "Int64": [1, -7, 0x1234567890], "Float32": [0x3f800000, 0xc0490fdb, 0x7fc00000]}


class Machinery:
    """evaluates instruction sequences; subclasses give the target instructions"""

    def __init__(self, T):
        self.T = T
        self.tmpl = {n: mach.template(x["Format"]) for n, x in T.info.items() if x.get("Format")}

    # values
    def get(self, o, env):
        if o.kind == "imm":
            return o.v
        if o.kind == "none":
            raise Bad("an operand is missing")
        if o.kind == "reg":
            if o.v >= self.T.stk:
                return STACK0 + 64 * (o.v - self.T.stk)
            if o.v == self.zero:
                return 0
            if o.v not in env:
                raise Unknown("register %%%s read before it is defined" % o.v)
            return env[o.v]
        if o.kind == "reloc":
            return RELOC
        raise Unknown("operand %r" % (o,))

    SPECIAL = [0, 1]    # contents of condition registers
    zero = None
    wide = 64        # width of a register
    nowrap = False   # signed overflow of types narrower than a register is excluded
    shlmax = False   # so is a left shift that overflows (of a divisor)

    def step(self, i, env, mem):
        """executes one instruction; -> None or ("goto", label) | ("branch", taken, label) | ("trap",)"""
        n = i.name
        if n in GENERIC:
            return self.generic(i, env, mem)
        return self.target(i, env, mem)

    def put(self, o, v, env):
        if o.kind == "none":
            raise Bad("the destination is missing")
        if o.kind != "reg" or o.v >= self.T.stk:
            raise Unknown("destination %r" % (o,))
        if o.v != self.zero:
            env[o.v] = v

    def generic(self, i, env, mem):
        n, o = i.name, i.ops

        def g(k):
            x = self.get(o[k], env)
            # a constant of a type is read as a value of that type
            return mach.canon(x, o[k].t) if o[k].kind == "imm" and o[k].t in BITS else x
        if n == "Jump":
            return ("branch", True, o[0].v)
        if n == "Branch":
            return ("branch", bool(g(0)), o[1].v)
        if n == "Unreachable":
            return ("trap",)
        if n == "Load":
            t = o[0].t
            self.put(o[0], mem.load(g(1), SIZE[t], t in BITS) if t != "Bool" else mem.load(g(1), 1, False) & 1, env)
        elif n == "Store":
            t = o[1].t
            mem.store(g(0), SIZE[t], g(1))
        elif n in INTBIN:
            t = o[0].t
            w = BITS[t]
            if n in ("SDiv", "SRem"):
                h = o[5].v
                a, b = g(1), g(2)
                if (h & 4 and a < 0) or (h & 2 and b < 0):
                    raise Undef()
                if w > o[3].v and abs(a) >> o[3].v and a != -(1 << 31):
                    raise Undef()
                if abs(b) >> o[4].v == 0 or b == 0:
                    raise Undef()
                if h & 1 and mach.GBIN[n](a, b, w) < 0:
                    raise Undef()
            v = mach.GBIN[n](g(1), g(2), w)
            if self.nowrap and w < self.wide and n in ("Add", "Sub", "Mul", "Shl") and mach.canon(v, t) != v:
                raise Undef()
            if self.shlmax and n == "Shl" and (g(1) << (g(2) & (w - 1))) != mach.canon(v, t):
                raise Undef()
            self.put(o[0], mach.canon(v, t), env)
        elif n in ("Neg", "Abs"):
            t = o[0].t
            v = g(1)
            if v == -(1 << (BITS[t] - 1)):
                if n == "Abs":
                    raise Undef()
            self.put(o[0], mach.canon(-v if n == "Neg" else abs(v), t), env)
        elif n in FPBIN:
            self.put(o[0], mach.GFBIN[n](g(1), g(2)), env)
        elif n == "FNeg":
            self.put(o[0], g(1) ^ 0x80000000, env)
        elif n == "FAbs":
            self.put(o[0], g(1) & 0x7fffffff, env)
        elif n == "FFma":
            self.put(o[0], mach.ffma(g(1), g(2), g(3)), env)
        elif n == "ICmp":
            t = o[1].t if o[1].t in BITS else o[2].t
            self.put(o[0], int(mach.icmp(self.T.cmpname[o[3].v], g(1), g(2), 64 if t == "Int64" else 64)), env)
        elif n == "FCmp":
            self.put(o[0], int(mach.fcmp(self.T.cmpname[o[3].v], g(1), g(2))), env)
        elif n in ("SExt", "ZExt", "Trunc"):
            s, t = o[1].t, o[0].t
            v = g(1)
            if n == "SExt" and s == "Bool":
                raise Undef()
            self.put(o[0], mach.canon(uns(v, BITS[s]) if n == "ZExt" else v, t), env)
        elif n in ("F2S", "F2U"):
            w = BITS[o[0].t]
            b = g(1)
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if n == "F2S" else (0, (1 << w) - 1)
            if mach.isnan(b) or mach.toint(b, lo - 1, hi + 1, 0) not in range(lo, hi + 1):
                raise Undef()
            self.put(o[0], mach.canon(mach.toint(b, lo, hi, 0), o[0].t), env)
        elif n in ("S2F", "U2F"):
            v = g(1)
            self.put(o[0], mach.f2b_int(v if n == "S2F" else uns(v, BITS[o[1].t])), env)
        elif n in ("Copy", "CopyFromReg", "CopyToReg", "LoadImm", "LoadImmToReg", "LoadGlobalAddress", "LoadStackObjectAddr"):
            self.put(o[0], g(1), env)
        elif n == "Select":
            self.put(o[0], g(2) if g(1) else g(3), env)
        else:
            raise Unknown("generic %s" % n)
        return None

    def corners(self, plan):
        """assignments of the free registers of a plan"""
        free = []
        seen = set(plan.defs)

        def add(i):
            di = self.T.defidx(i.name)
            for k, o in enumerate(i.ops):
                if o.kind == "reg" and k != di and o.v not in seen and o.v != self.zero and o.v < self.T.stk:
                    seen.add(o.v)
                    free.append((o.v, o.t))
        for d in plan.defs.values():
            add(d)
        add(plan.root)
        for tab in (CORNER, SHORT, MINI):
            n = 1
            for _, t in free:
                n *= len(tab.get(t, self.SPECIAL))
            if n <= 500:
                break
        for combo in itertools.product(*[tab.get(t, self.SPECIAL) for _, t in free]):
            yield {r: v for (r, _), v in zip(free, combo)}

    def order(self, plan):
        """definitions in dependency order"""
        out, done = [], set()

        def visit(r):
            if r in done or r not in plan.defs:
                return
            done.add(r)
            d = plan.defs[r]
            di = self.T.defidx(d.name)
            for k, o in enumerate(d.ops):
                if o.kind == "reg" and k != di:
                    visit(o.v)
            out.append((r, d))
        for r in plan.defs:
            visit(r)
        return out

    def subst(self, i, repl, blocked):
        if i in blocked or not repl:
            return i
        return Inst(i.name, [repl.get(o.v, o) if o.kind == "reg" else o for o in i.ops])

    def effects(self, seq, env, mem):
        """runs a straight sequence; -> list of control effects"""
        ctl = []
        for i in seq:
            x = self.step(i, env, mem)
            if x is not None:
                if x[0] == "branch" and not x[1]:
                    continue
                ctl.append(x)
                break
        return ctl

    def same(self, a, b, t):
        return a == b or (t == "Float32" and isinstance(a, int) and isinstance(b, int) and mach.isnan(a) and mach.isnan(b))

    def close(self, a, b, t, env):
        """allowed by relaxed floating-point arithmetic (one rounding less)"""
        if t != "Float32":
            return False
        x, y = mach.b2f(a), mach.b2f(b)
        if not (math.isfinite(x) and math.isfinite(y)):
            return True
        fs = [abs(mach.b2f(v)) for v in env.values() if v >= 0 and not mach.isnan(v) and (v & 0x7f800000) != 0x7f800000]
        top = max(fs + [0.0])
        return abs(x - y) <= 1e-5 * max(abs(x), abs(y), 1e-30) or top > 1e6

    def meaning(self, plan):
        """what the original instructions do on the corners where they have a defined meaning"""
        T = self.T
        pre = self.order(plan)
        di = T.defidx(plan.root.name)
        dst = plan.root.ops[di] if di is not None else None
        insts = [d for _, d in pre] + [plan.root]
        truth = any(i.name == "Load" and i.ops[0].t == "Bool" for i in insts)
        out = []
        self.nowrap = bool(plan.defs)
        self.shlmax = plan.root.name in ("SDiv", "SRem")
        for env0 in self.corners(plan):
            env, mem = dict(env0), mach.Memory(truth=truth, bits=self.wide)
            try:
                ok = True
                for reg, d in pre:
                    self.step(d, env, mem)
                    t = d.ops[T.defidx(d.name)].t
                    if t in BITS and mach.canon(env[reg], t) != env[reg]:
                        ok = False
                        break
                if not ok:
                    continue
                e1, m1 = dict(env), mach.Memory(truth=truth, bits=self.wide)
                c1 = self.effects([plan.root], e1, m1)
            except (Undef, Bad):
                continue    # no defined meaning, or not an instruction of the machine
            if dst is not None and dst.t in BITS and mach.canon(e1[dst.v], dst.t) != e1[dst.v]:
                continue    # not a well-typed instruction
            out.append((env0, env, truth, c1, m1.stores, e1[dst.v] if dst is not None else None))
        self.nowrap = False
        return out

    def compare(self, plan, r, meaning=None):
        """-> None when the emitted code agrees with the original on every corner, else a text; raises Unknown"""
        T = self.T
        if meaning is None:
            meaning = self.meaning(plan)
        dst = None
        di = T.defidx(plan.root.name)
        if di is not None:
            dst = plan.root.ops[di]
        post = [self.subst(i, r.replace, r.block) for i in r.seq]
        res = r.replace.get(dst.v, dst) if dst is not None else None
        self.kind = ""
        # a definition folded into the new code and removed must have no other use
        for d in r.removed:
            if r.assume.get(("one-use", d)) is not True and d not in r.replace and not any(i.ops and T.defidx(i.name) is not None and i.ops[T.defidx(i.name)].v == d for i in r.seq):
                return "the definition of %%%s is removed although it may have other uses" % d
        insts = list(plan.defs.values()) + [plan.root]
        fp = any(o.t == "Float32" for i in insts for o in i.ops)
        relaxed = fp and any("enableAggressive" in repr(k) for k in r.assume)
        self.nowrap = False
        known = None
        for env0, env, truth, c1, stores, want in meaning:
            e2, m2 = dict(env), mach.Memory(truth=truth, bits=self.wide)
            for d in r.removed:
                e2.pop(d, None)
            try:
                c2 = self.effects(post, e2, m2)
            except Undef:
                return "undefined for %s" % show_env(env0)
            if c1 != c2:
                m = "control goes to %s instead of %s for %s" % (c2, c1, show_env(env0))
                k = self.classify(plan, post, env)
                if not k:
                    return m
                known = known or (k, m)
                continue
            if stores != m2.stores:
                return "stores %s instead of %s for %s" % (m2.stores, stores, show_env(env0))
            if dst is not None:
                try:
                    got = self.get(res, e2)
                except Unknown:
                    return "the result is not defined"
                if not self.same(got, want, dst.t) and not (relaxed and self.close(got, want, dst.t, env0)):
                    m = "result %s instead of %s for %s" % (got, want, show_env(env0))
                    if dst.t in BITS and mach.canon(got, dst.t) == want:
                        known = known or ("upper-half", m + " (only the bits above the type differ)")
                        continue
                    return m
        if known:
            self.kind = known[0]
            return known[1]
        return None

    def classify(self, plan, post, env):
        """name of a narrower class of wrong branches, for the key of the report"""
        return ""

    def diagnose(self, plan, r, want):
        """name of a repair of the emitted code that makes it right, for the key of the report"""
        return ""


def show_env(e):
    return "{%s}" % ", ".join("%%%d=%#x" % (k & 0xfffffff, v) if v >= 0 else "%%%d=%d" % (k & 0xfffffff, v) for k, v in sorted(e.items()))


class RISCV(Machinery):
    zero = 0

    def target(self, i, env, mem):
        n = i.name
        txt, order = self.tmpl[n]
        mn, _, rest = txt.partition(" ")
        o = [i.ops[k] for k in order]
        g = lambda k: self.get(o[k], env)
        if n in ("Select_GPR_GPR", "Select_FPR_GPR", "Select_GPR_Arith"):
            c = mach.icmp(self.T.cmpname[i.ops[5].v], self.get(i.ops[3], env), self.get(i.ops[4], env), 64)
            if n == "Select_GPR_Arith":
                v = self.get(i.ops[1], env)
                if c:
                    e2 = dict(env)
                    self.step(Inst(self.T.opname[i.ops[6].v], [i.ops[0], i.ops[1], i.ops[2]]), e2, mem)
                    v = e2[i.ops[0].v]
            else:
                v = self.get(i.ops[1 if c else 2], env)
            self.put(i.ops[0], v, env)
            return None
        if mn in ("li", "mv") and rest == "$, $":
            self.put(o[0], g(1), env)
            return None
        if mn in mach.RV_LOAD and rest == "$, $($)":
            k, s = mach.RV_LOAD[mn]
            self.imm(o[1], mn, mach.IMM12)
            self.put(o[0], mem.load(self.base(o[2], env) + self.lo(o[1], env), k, s), env)
            return None
        if mn in mach.RV_STORE and rest == "$, $($)":
            self.imm(o[1], mn, mach.IMM12)
            mem.store(self.base(o[2], env) + self.lo(o[1], env), mach.RV_STORE[mn], g(0))
            return None
        if mn in mach.RV_BRANCH and rest == "$, $, $":
            return ("branch", bool(mach.icmp(mach.RV_BRANCH[mn], self.reg(o[0], env), self.reg(o[1], env), 64)), o[2].v)
        if mn == "j" and rest == "$":
            return ("branch", True, o[0].v)
        if mn == "unimp":
            return ("trap",)
        if mn in ("lui", "auipc") and rest == "$, $":
            if o[1].kind == "reloc":
                if o[1].t != "HighBits" or mn == "lui":
                    raise Bad("%s of a whole address" % mn)
                self.put(o[0], RELOC - sgn(RELOC, 12), env)
            else:
                self.imm(o[1], mn, (0, 0xfffff))
                if mn == "auipc":
                    raise Unknown("auipc of a constant")
                self.put(o[0], sgn(o[1].v << 12, 32), env)
            return None
        if mn in ("fcvt.w.s", "fcvt.wu.s") and rest == "$, $, rtz":
            b = self.reg(o[1], env)
            v = mach.toint(b, -2**31, 2**31 - 1, 2**31 - 1) if mn == "fcvt.w.s" else mach.toint(b, 0, 2**32 - 1, 2**32 - 1)
            self.put(o[0], sgn(v, 32), env)
            return None
        if mn == "slli.uw" and rest == "$, $, $":
            self.imm(o[2], mn, (0, 63))
            self.put(o[0], sgn((self.reg(o[1], env) & 0xffffffff) << o[2].v, 64), env)
            return None
        if mn in mach.RVI and rest == "$, $, $":
            self.imm(o[2], mn, mach.RV_IMM[mn])
            base = self.base(o[1], env) if mn == "addi" else self.reg(o[1], env)
            self.put(o[0], mach.RV[mach.RVI[mn]](base, self.lo(o[2], env)), env)
            return None
        f = mach.RV.get(mn)
        if f is not None and rest == ", ".join("$" * len(o)):
            self.put(o[0], f(*[self.reg(x, env) for x in o[1:]]), env)
            return None
        raise Unknown("no model of '%s'" % txt)

    def reg(self, o, env):
        if o.kind != "reg" or o.v >= self.T.stk:
            raise Bad("%r where a register is needed" % (o,))
        return self.get(o, env)

    def base(self, o, env):
        if o.kind != "reg":
            raise Bad("%r where a register is needed" % (o,))
        return self.get(o, env)

    def lo(self, o, env):
        if o.kind == "reloc":
            if o.t != "LowBits":
                raise Bad("a whole address as immediate")
            return sgn(RELOC, 12)
        return o.v

    def imm(self, o, mn, rg):
        if o.kind == "reloc":
            return
        if o.kind != "imm":
            raise Bad("%s: %r where an immediate is needed" % (mn, o))
        if not rg[0] <= o.v <= rg[1]:
            raise Bad("%s: immediate %d cannot be encoded" % (mn, o.v))


class MIPS(Machinery):
    wide = 32

    def __init__(self, T, regs):
        super().__init__(T)
        self.zero, self.hilo, self.cc = regs["X0"], regs["HILO"], regs["CC"]

    def target(self, i, env, mem):
        n = i.name
        txt, order = self.tmpl[n]
        mn, _, rest = txt.partition(" ")
        o = [i.ops[k] for k in order]
        three, two = rest == "$, $, $", rest == "$, $"
        flat = rest == ", ".join("$" * len(o))
        if n == "Select_GPR_GPR" or n == "Select_GPR_FPR_FPR":
            self.put(o[0], self.get(o[1 if self.get(o[3], env) else 2], env), env)
        elif n == "Select_FCC_FPR_FPR":
            self.put(o[0], self.get(o[1 if self.special(o[3], self.cc, env) else 2], env), env)
        elif n == "FCC2GPR":
            if o[2].kind != "imm":
                raise Bad("flip is %r" % (o[2],))
            self.put(o[0], int(bool(self.special(o[1], self.cc, env)) != bool(o[2].v)), env)
        elif mn == "li" and two:
            self.imm(o[1], mn, (-2**31, 2**32 - 1))
            self.put(o[0], sgn(o[1].v, 32), env)
        elif mn in mach.MIPS_LOAD and rest == "$, $($)":
            k, s = mach.MIPS_LOAD[mn]
            self.put(o[0], mem.load(self.base(o[2], env) + self.lo(o[1], mn), k, s), env)
        elif mn in mach.MIPS_STORE and rest == "$, $($)":
            mem.store(self.base(o[2], env) + self.lo(o[1], mn), mach.MIPS_STORE[mn], self.reg(o[0], env))
        elif mn in ("beq", "bne") and three:
            return ("branch", (self.reg(o[0], env) == self.reg(o[1], env)) == (mn == "beq"), o[2].v)
        elif mn in mach.MIPS_BRANCH0 and two:
            return ("branch", bool(mach.MIPS_BRANCH0[mn](self.reg(o[0], env))), o[1].v)
        elif mn in ("bc1t", "bc1f") and rest == "$":
            return ("branch", bool(self.special(i.ops[1], self.cc, env)) == (mn == "bc1t"), o[0].v)
        elif mn == "b" and rest == "$":
            return ("branch", True, o[0].v)
        elif txt == "break":
            return ("trap",)
        elif mn == "lui" and two:
            if o[1].kind == "reloc":
                if o[1].t != "HighBits":
                    raise Bad("lui of a whole address")
                self.put(o[0], RELOC - sgn(RELOC, 16), env)
            else:
                self.imm(o[1], mn, (0, 0xffff))
                self.put(o[0], sgn(o[1].v << 16, 32), env)
        elif mn in mach.MIPSI and three:
            op, lo, hi = mach.MIPSI[mn]
            if mn == "addiu":
                self.put(o[0], mach.MIPS[op](self.base(o[1], env), self.lo(o[2], mn)), env)
            else:
                self.imm(o[2], mn, (lo, hi))
                if o[2].kind != "imm":
                    raise Bad("%s of an address" % mn)
                self.put(o[0], mach.MIPS[op](self.reg(o[1], env), o[2].v), env)
        elif mn == "mult" and two:
            p = self.reg(o[0], env) * self.reg(o[1], env)
            env[self.hilo] = (sgn(p >> 32, 32), sgn(p, 32))
            self.must(i.ops[2], self.hilo)
        elif mn in ("div", "divu") and three:
            self.must(o[0], self.zero)
            a, b = self.reg(o[1], env), self.reg(o[2], env)
            if mn == "divu":
                a, b = a & 0xffffffff, b & 0xffffffff
            if b == 0:
                raise Undef()
            q = mach.tdiv(a, b)
            env[self.hilo] = (sgn(a - q * b, 32), sgn(q, 32))
            self.must(i.ops[3], self.hilo)
        elif mn in ("mfhi", "mflo") and rest == "$":
            self.put(o[0], self.special(i.ops[1], self.hilo, env)[mn == "mflo"], env)
        elif mn in mach.MIPS_FCMP and two:
            self.must(i.ops[2], self.cc)
            env[self.cc] = int(mach.fcmp(mach.MIPS_FCMP[mn], self.reg(o[0], env), self.reg(o[1], env)))
        elif mn == "trunc.w.s" and two:
            v = mach.toint(self.reg(o[1], env), -2**31 - 1, 2**31, 2**31)
            if not -2**31 <= v < 2**31:
                raise Undef()
            self.put(o[0], v & 0xffffffff, env)
        elif mn == "cvt.s.w" and two:
            self.put(o[0], mach.f2b_int(sgn(self.reg(o[1], env), 32)), env)
        elif mn == "mtc1" and two:
            self.put(o[1], self.reg(o[0], env) & 0xffffffff, env)
        elif mn == "mfc1" and two:
            self.put(o[0], sgn(self.reg(o[1], env), 32), env)
        elif mn in ("movn", "movz", "movz.s", "movn.s") and three:
            if i.ops[3] != i.ops[0]:
                raise Bad("%s: old value in another register" % mn)
            self.put(o[0], self.reg(o[1] if (self.reg(o[2], env) != 0) == mn.startswith("movn") else o[0], env), env)
        elif mn in ("movt", "movf", "movt.s", "movf.s") and three:
            if i.ops[3] != i.ops[0]:
                raise Bad("%s: old value in another register" % mn)
            self.put(o[0], self.reg(o[1] if bool(self.special(o[2], self.cc, env)) == mn.startswith("movt") else o[0], env), env)
        elif mn in mach.MIPS and flat:
            self.put(o[0], mach.MIPS[mn](*[self.reg(x, env) for x in o[1:]]), env)
        else:
            raise Unknown("no model of '%s'" % txt)
        return None

    def classify(self, plan, post, env):
        """a signed comparison made by subtracting, where the subtraction overflows"""
        d = plan.defs.get(plan.root.ops[0].v) if plan.root.name == "Branch" and plan.root.ops[0].kind == "reg" else None
        if d is None or d.name != "ICmp" or not self.T.cmpname[d.ops[3].v].startswith("ICmpSigned"):
            return ""
        v = self.get(d.ops[1], env) - self.get(d.ops[2], env)
        names = [self.tmpl[i.name][0].split()[0] for i in post if i.name in self.tmpl]
        return "subtraction-overflow" if v != sgn(v, 32) and names and names[-1] in mach.MIPS_BRANCH0 else ""

    def special(self, o, r, env):
        self.must(o, r)
        return self.get(o, env)

    def must(self, o, r):
        if o.kind != "reg" or o.v != r:
            raise Bad("%r where register %d is needed" % (o, r))

    def reg(self, o, env):
        if o.kind != "reg" or o.v >= self.T.stk:
            raise Bad("%r where a register is needed" % (o,))
        return self.get(o, env)

    def base(self, o, env):
        if o.kind != "reg":
            raise Bad("%r where a register is needed" % (o,))
        return self.get(o, env)

    def lo(self, o, mn):
        if o.kind == "reloc":
            if o.t != "LowBits":
                raise Bad("a whole address as immediate")
            return sgn(RELOC, 16)
        self.imm(o, mn, (-32768, 32767))
        return o.v

    imm = RISCV.imm


class ARM(Machinery):
    """A32, registers hold signed 32-bit integers; condition flags are (n, z, c, v)"""
    wide = 32
    SPECIAL = [(n, z, c, v) for n in (0, 1) for z in (0, 1) for c in (0, 1) for v in (0, 1) if not (n and z)]
    DP = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "rsb": lambda a, b: b - a, "and": lambda a, b: a & b, "orr": lambda a, b: a | b,
          "eor": lambda a, b: a ^ b, "bic": lambda a, b: a & ~b}
    LOAD = {"ldr": (4, True), "ldrb": (1, False), "ldrsb": (1, True), "ldrh": (2, False), "ldrsh": (2, True), "vldr": (4, False)}
    STORE = {"str": 4, "strb": 1, "strh": 2, "vstr": 4}
    FP = {"vadd.f32": mach.FADD, "vsub.f32": mach.FSUB, "vmul.f32": mach.FMUL, "vdiv.f32": mach.FDIV, "vneg.f32": lambda a: a ^ 0x80000000,
          "vabs.f32": lambda a: a & 0x7fffffff, "vnmul.f32": lambda a, b: mach.FMUL(a, b) ^ 0x80000000}

    def __init__(self, T, regs, conds):
        super().__init__(T)
        self.cc, self.fcc = regs["CC"], regs["FCC"]
        self.conds = {v: n for n, v in conds.items()}

    def cond(self, o):
        if o.kind != "imm" or o.v not in self.conds:
            raise Bad("condition %r" % (o,))
        return self.conds[o.v]

    def holds(self, o, env):
        f = env.get(self.cc)
        if f is None:
            raise Unknown("condition flags read before they are set")
        return bool(isa.ARMCOND[self.cond(o)](*f))

    def special(self, o, r):
        if o.kind != "reg" or o.v != r:
            raise Bad("%r where register %d is needed" % (o, r))

    def shift(self, kind, a, n):
        """barrel shifter, amount already reduced to a byte"""
        if kind == "LSL":
            return sgn(a << n, 32) if n < 32 else 0
        if kind == "LSR":
            return sgn((a & 0xffffffff) >> n, 32) if n < 32 else 0
        return a >> min(n, 31)

    def amount(self, o, env, what):
        if o.kind == "reg":
            return self.reg(o, env) & 0xff
        self.imm(o, what, (0, 31))
        return o.v

    def op2(self, o, env, what):
        if o.kind == "reg":
            return self.reg(o, env)
        if o.kind != "imm":
            raise Bad("%s: operand %r" % (what, o))
        v = o.v & 0xffffffff
        if not -2**31 <= o.v < 2**32 or not any(((v << 32 | v) >> k) & 0xffffffff < 256 for k in range(0, 32, 2)):
            raise Bad("%s: constant %d cannot be encoded" % (what, o.v))
        return sgn(v, 32)

    def dp(self, mn, a, b):
        return sgn(self.DP[mn](a, b), 32)

    def target(self, i, env, mem):
        n = i.name
        txt, order = self.tmpl[n]
        mn, _, rest = txt.partition(" ")
        o = [i.ops[k] for k in order]
        three, two, four = rest == "$, $, $", rest == "$, $", rest == "$, $, $, $"
        T = self.T
        mn0 = mn[:-1] if mn.endswith("$") else mn
        if n == "Select_GPR":
            self.special(i.ops[3], self.cc)
            self.put(i.ops[0], self.op2(i.ops[1 if self.holds(i.ops[4], env) else 2], env, n), env)
            self.op2(i.ops[1], env, n), self.op2(i.ops[2], env, n)
        elif n == "Select_FPR":
            self.special(i.ops[3], self.cc)
            self.put(i.ops[0], self.reg(i.ops[1 if self.holds(i.ops[4], env) else 2], env), env)
        elif n == "CondArith_GPR":
            self.special(i.ops[3], self.cc)
            a, b = self.reg(i.ops[1], env), self.op2(i.ops[2], env, n)
            op = T.opname.get(i.ops[5].v, "").split("_")[0].lower()
            if op not in self.DP:
                raise Bad("conditional %s" % op)
            self.put(i.ops[0], self.dp(op, a, b) if self.holds(i.ops[4], env) else a, env)
        elif n == "PseudoIntOpWithOp2_Cond":
            self.special(i.ops[6], self.cc)
            op = T.opname.get(i.ops[5].v, "").split("_")[0].lower()
            if op not in self.DP:
                raise Bad("conditional %s" % op)
            v = self.dp(op, self.reg(i.ops[2], env), self.op2(i.ops[3], env, n))
            if not self.holds(i.ops[0], env):
                v = self.reg(i.ops[4], env)
            self.put(i.ops[1], v, env)
        elif n == "PseudoFMA":
            if T.opname.get(i.ops[4].v) not in ("VMLA_F32", "VMLS_F32", "VNMLA_F32", "VNMLS_F32"):
                raise Bad("fused %r" % (i.ops[4],))
            e2 = dict(env)
            e2[i.ops[0].v] = self.reg(i.ops[3], env)
            self.step(Inst(T.opname[i.ops[4].v], [i.ops[0], i.ops[1], i.ops[2], i.ops[0]]), e2, mem)
            self.put(i.ops[0], e2[i.ops[0].v], env)
        elif n == "NZCVFlag2GPR":
            self.special(i.ops[1], self.cc)
            self.put(i.ops[0], int(self.holds(i.ops[2], env)), env)
        elif n in ("PseudoSMax", "PseudoSMin", "PseudoSMax_Inverted", "PseudoSMin_Inverted"):
            self.special(i.ops[3], self.cc)
            f = env.get(self.cc)
            if f is None:
                raise Unknown("condition flags read before they are set")
            a, b = self.reg(i.ops[1], env), self.op2(i.ops[2], env, n)
            b = ~b if n.endswith("Inverted") else b
            self.put(i.ops[0], a if (f[0] == f[3]) == n.startswith("PseudoSMax") else b, env)
        elif n == "MOVT_MOVW_PAIR":
            if i.ops[1].kind == "reloc":
                self.put(i.ops[0], RELOC, env)
            else:
                self.imm(i.ops[1], n, (0, 2**32 - 1))
                self.put(i.ops[0], sgn(i.ops[1].v, 32), env)
        elif mn in self.DP and three:
            self.put(o[0], self.dp(mn, self.reg(o[1], env), self.op2(o[2], env, mn)), env)
        elif mn in self.DP and rest == "$, $, $, $ $":
            k = T.opname.get(o[3].v) if o[3].kind == "imm" and o[3].t == "ShiftType" else None
            if k not in ("LSL", "LSR", "ASR"):
                raise Bad("shift kind %r" % (o[3],))
            if o[4].kind == "imm" and o[4].v == 0 and k != "LSL":
                raise Bad("shift by zero")
            self.put(o[0], self.dp(mn, self.reg(o[1], env), self.shift(k, self.reg(o[2], env), self.amount(o[4], env, mn))), env)
        elif mn in ("mul", "smmul", "sdiv", "udiv") and three:
            a, b = self.reg(o[1], env), self.reg(o[2], env)
            if mn in ("sdiv", "udiv"):
                if mn == "udiv":
                    a, b = a & 0xffffffff, b & 0xffffffff
                v = mach.tdiv(a, b) if b else 0
            else:
                v = a * b >> (32 if mn == "smmul" else 0)
            self.put(o[0], sgn(v, 32), env)
        elif mn in ("mla", "mls", "smmla") and four:
            a, b, c = [self.reg(x, env) for x in o[1:]]
            self.put(o[0], sgn({"mla": c + a * b, "mls": c - a * b, "smmla": c + (a * b >> 32)}[mn], 32), env)
        elif mn in ("sxtb", "sxth", "uxtb", "uxth") and two:
            a, w = self.reg(o[1], env), 8 if mn[3] == "b" else 16
            self.put(o[0], sgn(a, w) if mn[0] == "s" else uns(a, w), env)
        elif mn in ("mov", "mvn") and two:
            v = self.op2(o[1], env, mn)
            self.put(o[0], v if mn == "mov" else ~v, env)
        elif mn == "clz" and two:
            self.put(o[0], 32 - (self.reg(o[1], env) & 0xffffffff).bit_length(), env)
        elif mn in ("asr", "lsl", "lsr") and three:
            self.put(o[0], self.shift(mn.upper(), self.reg(o[1], env), self.amount(o[2], env, mn)), env)
        elif mn in ("cmp", "cmn") and two:
            self.special(i.ops[2], self.cc)
            a, b = self.reg(o[0], env), self.op2(o[1], env, mn)
            if mn == "cmp":
                env[self.cc] = isa.arm_int_flags(a, b)
            else:
                r = (a + b) & 0xffffffff
                env[self.cc] = (r >> 31, int(r == 0), int((a & 0xffffffff) + (b & 0xffffffff) > 0xffffffff), int(sgn(r, 32) != a + b))
        elif mn == "b" and rest == "$":
            return ("branch", True, o[0].v)
        elif n == "B_Cond":
            self.special(i.ops[2], self.cc)
            return ("branch", self.holds(i.ops[0], env), i.ops[1].v)
        elif mn in self.LOAD and rest in ("$, [$, $]", "$, [$, $$]"):
            k, s = self.LOAD[mn]
            self.put(o[0], mem.load(self.address(o, env, mn), k, s), env)
        elif mn in self.STORE and rest in ("$, [$, $]", "$, [$, $$]"):
            mem.store(self.address(o, env, mn), self.STORE[mn], self.reg(o[0], env))
        elif mn == "movw" and two:
            if o[1].kind == "reloc":
                if o[1].t != "LowBits":
                    raise Bad("movw of a whole address")
                self.put(o[0], RELOC & 0xffff, env)
            else:
                self.imm(o[1], mn, (0, 0xffff))
                self.put(o[0], o[1].v, env)
        elif mn == "movt" and two:
            if i.ops[2] != i.ops[0]:
                raise Bad("movt: old value in another register")
            if o[1].kind == "reloc" and o[1].t != "HighBits":
                raise Bad("movt of a whole address")
            self.imm(o[1], mn, (0, 0xffff))
            hi = RELOC >> 16 if o[1].kind == "reloc" else o[1].v
            self.put(o[0], sgn(self.reg(o[0], env) & 0xffff | hi << 16, 32), env)
        elif mn in ("vmla.f32", "vmls.f32", "vnmla.f32", "vnmls.f32") and three:
            if i.ops[3] != i.ops[0]:
                raise Bad("%s: accumulator in another register" % mn)
            p, c = mach.FMUL(self.reg(o[1], env), self.reg(o[2], env)), self.reg(o[0], env)
            p ^= 0x80000000 if mn in ("vmls.f32", "vnmla.f32") else 0
            self.put(o[0], mach.FADD(p, c ^ (0x80000000 if mn.startswith("vn") else 0)), env)
        elif mn == "vcmp.f32" and two:
            self.special(i.ops[2], self.fcc)
            a = self.reg(o[0], env)
            if o[1].kind == "imm":
                self.imm(o[1], mn, (0, 0))
                b = 0
            else:
                b = self.reg(o[1], env)
            x, y = mach.b2f(a), mach.b2f(b)
            env[self.fcc] = isa.ARM_FLAGS_FP["u" if mach.isnan(a) or mach.isnan(b) else "<" if x < y else "=" if x == y else ">"]
        elif mn == "vmrs" and two:
            self.special(o[0], self.cc)
            self.special(o[1], self.fcc)
            if self.fcc not in env:
                raise Unknown("floating-point flags read before they are set")
            env[self.cc] = env[self.fcc]
        elif mn == "vcvt.f32.s32" and two:
            self.put(o[0], mach.f2b_int(sgn(self.reg(o[1], env), 32)), env)
        elif mn == "vcvt.s32.f32" and two:
            self.put(o[0], mach.toint(self.reg(o[1], env), -2**31, 2**31 - 1, 0) & 0xffffffff, env)
        elif n == "VMOV_GPR2FPR":
            self.put(o[0], self.reg(o[1], env) & 0xffffffff, env)
        elif n == "VMOV_FPR2GPR":
            self.put(o[0], sgn(self.reg(o[1], env), 32), env)
        elif n == "VMOV" and two:
            self.put(o[0], self.reg(o[1], env), env)
        elif n == "VMOV_Constant":
            raise Unknown("floating-point constant")
        elif mn == "usat" and three:
            self.imm(o[1], mn, (0, 31))
            self.put(o[0], min(max(self.reg(o[2], env), 0), (1 << o[1].v) - 1), env)
        elif mn == "ssat" and three:
            self.imm(o[1], mn, (1, 32))
            k = 1 << (o[1].v - 1)
            self.put(o[0], min(max(self.reg(o[2], env), -k), k - 1), env)
        elif mn == ".inst" or mn == "udf":
            return ("trap",)
        elif mn in self.FP and rest == ", ".join("$" * len(o)):
            self.put(o[0], self.FP[mn](*[self.reg(x, env) for x in o[1:]]), env)
        elif mn0 in ("mov", "mvn") and two and mn0 != mn:
            if i.ops[4] != i.ops[1]:
                raise Bad("%s: old value in another register" % mn0)
            self.special(i.ops[3], self.cc)
            v = self.op2(o[2], env, mn0)
            if self.holds(o[0], env):
                self.put(o[1], v if mn0 == "mov" else ~v, env)
            else:
                self.reg(o[1], env)
        elif mn0 == "movw" and mn0 != mn:
            if i.ops[4] != i.ops[1]:
                raise Bad("%s: old value in another register" % mn0)
            self.special(i.ops[3], self.cc)
            self.imm(o[2], mn0, (0, 0xffff))
            if self.holds(o[0], env):
                self.put(o[1], o[2].v, env)
        elif n == "VMOV_Cond":
            if i.ops[4] != i.ops[1]:
                raise Bad("%s: old value in another register" % mn0)
            self.special(i.ops[3], self.cc)
            v = self.reg(o[2], env)
            if self.holds(o[0], env):
                self.put(o[1], v, env)
        elif mn0 in self.DP and three and mn0 != mn:
            if i.ops[5] != i.ops[1]:
                raise Bad("%s: old value in another register" % mn0)
            self.special(i.ops[4], self.cc)
            v = self.dp(mn0, self.reg(o[2], env), self.op2(o[3], env, mn0))
            if self.holds(o[0], env):
                self.put(o[1], v, env)
        else:
            raise Unknown("no model of '%s'" % txt)
        return None

    def address(self, o, env, mn):
        b = self.base(o[1], env)
        if len(o) == 3:
            rg = {"vldr": 1020, "vstr": 1020, "ldr": 4095, "str": 4095, "ldrb": 4095, "strb": 4095}.get(mn, 255)
            if o[2].kind != "imm":
                raise Bad("%s: offset %r" % (mn, o[2]))
            self.imm(o[2], mn, (-rg, rg))
            if rg == 1020 and o[2].v % 4:
                raise Bad("%s: offset %d cannot be encoded" % (mn, o[2].v))
            return b + o[2].v
        if o[3].kind != "imm" or o[3].t != "LoadStoreShamt":
            raise Bad("%s: scale %r" % (mn, o[3]))
        self.imm(o[3], mn, (0, 31))
        if o[3].v and mn not in ("ldr", "str", "ldrb", "strb"):
            raise Bad("%s has no scaled register offset" % mn)
        return b + (self.reg(o[2], env) << o[3].v)

    reg, base, imm = RISCV.reg, RISCV.base, RISCV.imm


    def diagnose(self, plan, r, want):
        """a signed saturation to one bit less than the range needs"""
        if not any(i.name == "SSAT" for i in r.seq):
            return ""
        seq = r.seq
        r.seq = [Inst(i.name, [i.ops[0], Op("imm", i.ops[1].v + 1, i.ops[1].t)] + i.ops[2:]) if i.name == "SSAT" and i.ops[1].kind == "imm" else i for i in seq]
        try:
            return "" if self.compare(plan, r, want) else "ssat-one-bit-short"
        except (Bad, Unknown):
            return ""
        finally:
            r.seq = seq


class Bad(Exception):
    """an instruction that does not exist in this form"""


# ---------------------------------------------------------------- exploration
class Explorer:
    """instruction trees, grown where the selector asks for a definition"""

    def __init__(self, T, S, P, E, limits):
        self.T, self.S, self.P, self.E, self.limits = T, S, P, E, limits
        self.I = Instances(T, E.zero)

    def visit(self, job):
        """one shape -> (shape, depth, counters, findings, undecided texts, children)"""
        sh, d = job
        st = {"plans": 0, "selected": 0, "unchanged": 0, "skipped": 0}
        bad, und, asked = {}, {}, {}
        leaves = [(p, o) for p, o in shape_leaves(sh) if o[0] == "r"]
        cc = sum(1 for _, o in shape_leaves(sh) if o[0] == "cc")
        for plan in self.I.all(sh, max(6, self.limits[min(d, len(self.limits) - 1)] // (1 + cc) if d else self.limits[0])):
            a = {}
            try:
                want = self.E.meaning(plan)
            except Unknown as e:
                und.setdefault("%s: %s" % (plan.root.name, e), str(plan))
                continue
            if not want:
                st["skipped"] += 1
                continue
            st["plans"] += 1
            try:
                rs = self.S.run(plan, a)
            except (Undecided, Trap) as e:
                und.setdefault(str(e)[:120], str(plan))
                rs = []
            for k, (p, o) in enumerate(leaves):
                if self.T.vreg + 1 + k in a:
                    asked.setdefault(p, set()).update(a[self.T.vreg + 1 + k])
            for r in rs:
                if r.end != "ret":
                    und.setdefault("the selector ends in %s" % r.end, str(plan))
                    continue
                if not r.changed:
                    st["unchanged"] += 1
                    continue
                if r.seq is None:
                    und.setdefault("a definition is rewritten in place", str(plan))
                    continue
                st["selected"] += 1
                kind = ""
                try:
                    m = self.E.compare(plan, r, want)
                    kind = self.E.kind
                except Unknown as e:
                    und.setdefault(str(e), str(plan))
                    continue
                except Bad as e:
                    m = str(e)
                if m:
                    kind = self.E.diagnose(plan, r, want) or kind
                    bad.setdefault(self.key(sh, plan, kind), "%s becomes %s%s: %s" % (plan, r.seq, " with %s" % r.replace if r.replace else "", m))
        kids = []
        if d + 1 < len(self.limits):
            for p, o in leaves:
                for k in asked.get(p, ()):
                    n = self.T.opname.get(k)
                    for s in self.P.sigs(n, o[1]):
                        kids.append((with_child(sh, p, (n, freeze(s), ())), d + 1))
        return sh, d, st, bad, und, kids

    def key(self, sh, plan, kind):
        k = show_shape(sh)
        if kind == "upper-half" and plan.root.name == "SDiv" and not plan.defs and plan.root.ops[2].kind == "imm":
            return "%s/divisor=%d/upper-half" % (k, plan.root.ops[2].v)
        if kind == "upper-half" and plan.root.name == "And" and not plan.defs and plan.root.ops[2].kind == "imm":
            return "%s/mask=%#x/upper-half" % (k, plan.root.ops[2].v)
        if plan.root.name in ("ICmp", "FCmp") and not plan.defs:
            k += "/" + self.T.cmpname[plan.root.ops[3].v]
        return k + ("/" + kind if kind else "")


_X = None


def _visit(job):
    t = time.time()
    return _X.visit(job) + (time.time() - t,)


def explore(X, roots, budget, procs=None):
    """every tree under the given root opcodes; -> (results, complete)"""
    global _X
    _X = X
    jobs, seen, out = [], set(), []
    for n in roots:
        for s in X.P.sigs(n):
            jobs.append(((n, freeze(s), ()), 0))
    t0 = time.time()
    full = True
    with multiprocessing.get_context("fork").Pool(procs or os.cpu_count() or 4) as pool:
        while jobs:
            todo = [j for j in jobs if j[0] not in seen]
            todo = list({j[0]: j for j in todo}.values())
            seen.update(j[0] for j in todo)
            if time.time() - t0 > budget:
                full = False
                break
            jobs = []
            for r in pool.imap_unordered(_visit, todo, chunksize=1):
                out.append(r)
                jobs += r[5]
    return out, full


def judge(c, X, budget, floor):
    """obligation per instruction tree: every plan of it that is selected keeps its meaning"""
    roots = sorted(set(n for n in GENERIC if X.P.sigs(n)) | set(n for n in X.S.roots() if X.P.sigs(n)))
    out, full = explore(X, roots, budget)
    out.sort(key=lambda r: (r[1], show_shape(r[0])))
    tot, why, heads = {}, {}, set()
    for sh, d, st, bad, und, kids, t in out:
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        if bad:
            for k, m in sorted(bad.items()):
                c.bad("%s/%s" % (X.T.name, k), "cmmc/Target/%s" % X.T.name, m)
        elif und:
            m, p = sorted(und.items())[0]
            c.undec(show_shape(sh), "%s (%s)" % (m, p))
        elif st["selected"]:
            c.ok({"tree": show_shape(sh), "instances selected": st["selected"]})
            heads.add(sh[0])
        for m in und:
            why[m] = why.get(m, 0) + 1
    c.cov.update({"instruction trees": len(out), "instances": tot, "exploration complete": full, "roots": roots, "trees by depth": {str(d): sum(1 for r in out if r[1] == d) for d in set(r[1] for r in out)},
                  "undecided reasons": dict(sorted(why.items(), key=lambda x: -x[1])[:20])})
    if tot.get("selected", 0) < floor:
        raise Broken("only %d instructions were selected (at least %d expected); undecided: %s" % (tot.get("selected", 0), floor, sorted(why.items(), key=lambda x: -x[1])[:5]))


def selector(T, files, root, **kw):
    r = run_tool("spec", {"modules": bitcode(files), "root": root, "opaque": OPAQUE, "queries": [{"id": "x"}], "cfg": True, "globals": "."})
    table = {}
    for x in r["results"]:
        table.update(const_table(x["globals"]))
    return Selector(T, r["results"][0], {}, table, **kw)
