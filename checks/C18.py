"""Lowering each IR operation to generic machine instructions keeps its meaning."""
from _common import *
import itertools
import math
import multiprocessing
import time
import isel
import irsel
import lower
import mach
from absint import Ptr, Machine, sym
from irtypes import functions
from semantics import INTBIN, INTUN, FPBIN, FPUN, ICMP, FCMP
from terms import Undecided, Trap, sgn, uns

SRC = "CodeGen/Lowering.cpp"
FILES = [SRC, "CodeGen/ISelInfo.cpp", "IR/Instruction.cpp", "Support/Graph.cpp", "Analysis/IntegerRange.cpp"]
I32 = [0, 1, -1, 2, -2, 5, -7, 31, 100, 0x7fffffff, -0x80000000, 0x12345678, -0x1234567, 255, 256, -256, 65535, 65536, 0x7ffffffe]
I64 = I32 + [2**31, 2**32, 2**32 + 5, 2**63 - 1, -2**63, -2**40, 2**40 + 7, -2**31 - 1]
FB = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x40490fdb, 0x7f800000, 0xff800000, 0x7fc00000, 0x4f000000, 0xcf000000, 0x3effffff, 0x42c80000, 0x00000001, 0xc2c80000]
GRID = {"i1": [0, 1], "i8": [0, 1, -1, 127, -128, 85], "i16": [0, 1, -1, 32767, -32768, 256], "i32": I32, "i64": I64, "f32": FB}
BITS = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
ROOT = r"^cmmc::mir::lowerInst$|%sDataLayout::|%sISelInfo::(lowerInst|lowerIndirectJump|materializeFPConstant)$"
RH = '''
#include <cmmc/Analysis/IntegerRange.hpp>
#include <new>
using namespace cmmc;
extern "C" void vk_range(IntegerRange* r, int64_t lo, int64_t hi) { new(r) IntegerRange(); r->setSignedRange(lo, hi); r->sync(); }
'''


def canon(v, t):
    return v & 1 if t == "i1" else sgn(v, BITS[t])


class Lowerer:
    def __init__(self, T):
        self.T = T
        self.E = lower.Env(T, ROOT % (T, T), FILES + ["Target/%s/%sISelInfo.cpp" % (T, T), "Target/%s/%sTarget.cpp" % (T, T)])
        fs = self.E.funcs
        self.lower = next((f for n, f in fs.items() if re.search(r"^cmmc::mir::lowerInst\b", n)), None)
        pick = lambda s: next((f for n, f in fs.items() if re.search(r"::%sISelInfo::%s\b" % (T, s), n)), None)
        self.tlower, self.tjump, self.tfp = pick("lowerInst"), pick("lowerIndirectJump"), pick("materializeFPConstant")
        if not self.lower or not self.tlower:
            raise Broken("%s: the lowering function was not found" % T)
        M = self.E.M
        if T == "RISCV":
            self.X = isel.RISCV(M)
            self.X.zero = const_values("cmmc/Target/RISCV/RISCV.hpp", "cmmc::mir::RISCV::", ["X0"], pre="#include <RISCV/InstInfoDecl.hpp>\n")["X0"]
        elif T == "MIPS":
            r = const_values("cmmc/Target/MIPS/MIPS.hpp", "cmmc::mir::MIPS::", ["X0", "HILO", "CC"])
            self.X = isel.MIPS(M, r)
            self.X.zero = r["X0"]
        else:
            self.X = isel.ARM(M, const_values("cmmc/Target/ARM/ARM.hpp", "cmmc::mir::ARM::", ["CC", "FCC"]), enum_values("cmmc/Target/ARM/ARM.hpp", "CondField", "cmmc::mir::ARM::"))
        step = self.X.step

        def divide(i, env, mem):
            # the hints are judged on their own
            if i.name not in ("SDiv", "SRem", "UDiv", "URem"):
                return step(i, env, mem)
            t = i.ops[0].t
            r = INTBIN[i.name](self.X.get(i.ops[1], env), self.X.get(i.ops[2], env), mach.BITS[t])
            if r is None:
                raise mach.Undef()
            self.X.put(i.ops[0], mach.canon(r, t), env)
        self.X.step = divide
        bc = harness("range", RH)
        if bc is None:
            raise Broken("integer ranges not recognised")
        fr = functions(run_tool("spec", {"modules": [bc] + bitcode(["Analysis/IntegerRange.cpp"]), "root": "^vk_range$", "opaque": [], "queries": [{"id": "x"}], "cfg": True}))
        self.rfn, self.rfuncs = fr["vk_range"], fr
        self.rcache = {}
        self.ints = ["i32", "i64"] if self.E.ptype == "Int64" else ["i32"]

    def range(self, lo, hi):
        if (lo, hi) not in self.rcache:
            b = ("obj", "r")
            m = Machine(self.rfn, lambda mm, n, a, e: isel.GENERIC and None, [Ptr(b), lo, hi], funcs=self.rfuncs, visits=100)
            ts = [t for t in m.run() if t.end == "ret"]
            if len(ts) != 1:
                raise Undecided("range object")
            self.rcache[(lo, hi)] = {o: ts[0].mem[(b, o)] for o in ts[0].mem.offsets(b)}
        return self.rcache[(lo, hi)]

    def paths(self, f, inst, only=None):
        """codes built for an instruction: the target's own lowering first, then the common one"""
        ctx = Ptr(("obj", "ctx"))
        out = []
        if time.time() > DEADLINE:
            raise Undecided("out of time")
        for t in f.run(self.tlower, [Ptr(("obj", "isel")), inst, ctx]):
            if t.end in ("noreturn", "unreachable"):
                out.append(None)
                continue
            if t.end != "ret" or not isinstance(t.ret, int):
                raise Undecided("%s: %s" % (t.end, t.ret))
            if t.ret & 1:
                out.append(lower.Code(self.E, t))
                continue
            for u in f.run(self.lower, [inst, ctx, Ptr(("obj", "alignment")), Ptr(("obj", "range")), Ptr(("obj", "dom"))]):
                if u.end in ("noreturn", "unreachable"):
                    out.append(None)
                elif u.end != "ret":
                    raise Undecided(u.end)
                else:
                    out.append(lower.Code(self.E, u))
        return out

    def env0(self, f, vals):
        """registers of the operands"""
        return {f.vals[b][1]: v for b, v in vals.items() if f.vals[b][0] == "reg"}


def ieee(b):
    return mach.b2f(b)


def ffold(op, *a):
    try:
        r = (FPBIN.get(op) or FPUN.get(op))(*[ieee(x) for x in a])
    except OverflowError:
        return None
    return mach.f2b(r)


def samef(a, b):
    return a == b or mach.isnan(a) and mach.isnan(b)


def oracle(op, t, cmp, st, a):
    """value of an IR operation; None where it has none"""
    if op in INTBIN:
        w = BITS[t]
        r = INTBIN[op](a[0], a[1], w)
        if r is None:
            return None
        if op in ("SDiv", "SRem") and canon(INTBIN["SDiv"](a[0], a[1], w), t) != INTBIN["SDiv"](a[0], a[1], w):
            return None
        return canon(r, t)
    if op in INTUN:
        r = INTUN[op](a[0], BITS[t])
        return canon(r, t) if op == "Neg" or canon(r, t) == r else None
    if op in FPBIN or op in FPUN:
        return ffold(op, *a)
    if op == "ICmp":
        return int(ICMP[cmp](a[0], a[1]))
    if op == "FCmp":
        return int(FCMP[cmp](ieee(a[0]), ieee(a[1])))
    if op in ("SExt", "SignedTrunc", "UnsignedTrunc"):
        return canon(a[0], t)
    if op == "ZExt":
        return canon(uns(a[0], BITS[st]), t)
    if op in ("F2S", "F2U"):
        x = ieee(a[0])
        w = BITS[t]
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if op == "F2S" else (0, (1 << w) - 1)
        if math.isnan(x) or math.isinf(x) or not lo <= int(x) <= hi:
            return None
        return canon(int(x), t)
    if op == "S2F":
        return mach.f2b_int(a[0])
    if op == "U2F":
        return mach.f2b_int(uns(a[0], BITS[st]))
    if op == "Bitcast":
        return uns(a[0], 32) if t == "f32" else sgn(a[0], 32)
    if op in ("PtrCast", "PtrToInt", "IntToPtr"):
        return a[0]
    if op == "Select":
        return a[1] if a[0] else a[2]
    raise KeyError(op)


def operand(code, env):
    k, v, ty = code.op(code.result[1])
    if k == "imm":
        return v
    if k != "reg" or v not in env:
        raise mach.Unknown("the result register is never written")
    return env[v]


def values(L, out, op, ty, srcs, kids, f, cmp=None, imm=None):
    """judges one value instruction; kids: operand values, srcs: their types"""
    T = L.T
    inst = f.inst(op, ty, kids, cmp, cls="CastInst" if op == "Bitcast" else None)
    key = "%s/%s.%s(%s)%s" % (T, op, ty, ",".join(srcs), ":" + cmp if cmp else "")
    if imm is not None:
        key += "/" + imm
    try:
        codes = L.paths(f, inst)
    except (Undecided, Trap) as e:
        out.append(("undec", key, str(e)))
        return
    grids = []
    for k, t in zip(kids, srcs):
        v = f.vals[k.base]
        w = L.E.ptype if t == "ptr" else None
        grids.append([v[1]] if v[0] == "imm" else [f.fconst[k.base]] if k.base in getattr(f, "fconst", {}) else
                     ([8, 4096, 0x7ffffff8] if w else GRID[t]))
    n = 0
    for code in codes:
        if code is None:
            out.append(("note", key, "not lowered"))
            continue
        if code.result is None or code.result[0] != inst:
            out.append(("bad", key, "%s: the result of %s is not recorded as its value" % (T, op)))
            return
        bt = code.op(code.result[1]).t
        if bt != L.E.optype(ty):
            out.append(("bad", key, "%s: the result of %s of type %s is held as %s" % (T, op, ty, bt)))
            return
        for a in itertools.product(*grids):
            try:
                want = oracle(op, ty, cmp, srcs[0], a)
            except (OverflowError, ValueError):
                want = None
            if want is None:
                continue
            env = L.env0(f, {k.base: v for k, v in zip(kids, a)})
            try:
                r = code.execute(L.X, env, mach.Memory(1))
                got = operand(code, env) if r == "end" else r
            except mach.Undef:
                got = "nothing (undefined)"
            except (mach.Unknown, isel.Bad, Undecided) as e:
                out.append(("undec", key, str(e)))
                return
            n += 1
            if got != want and isinstance(got, int) and (ty in ("i8", "i16") or op == "Bitcast"):
                # the bits above a narrow value are not specified
                w = 32 if op == "Bitcast" else BITS[ty]
                got, want = uns(got, w), uns(want, w)
            if got != want and not (ty == "f32" and isinstance(got, int) and samef(got, want)):
                out.append(("bad", key, "%s: %s on (%s) gives %s instead of %s; emitted: %s" % (
                    T, op + (" " + cmp if cmp else ""), ", ".join(map(str, a)), got, want, "; ".join(map(repr, sum(code.blocks.values(), []))))))
                return
    out.append(("ok", key, n))


def job_values(L):
    out = []
    E = L.E

    def F(**kw):
        f = lower.Func(E)
        f.fconst = {}
        for k, v in kw.items():
            setattr(f, k, v)
        return f
    for ty in L.ints:
        for op in INTBIN:
            hints = [(-2**31, 2**31 - 1, -2**31, 2**31 - 1, -2**31, 2**31 - 1)]
            if op in ("SDiv", "SRem"):
                hints += [(0, 2**31 - 1, 1, 2**31 - 1, 0, 2**31 - 1), (0, 100, -5, 5, -100, 100), (-100, 100, 1, 5, -100, 100), (-100, -1, -5, -1, 0, 100), (0, 0, 0, 0, 0, 0), (5, 5, -3, -3, -1, -1)]
            for hi in hints if ty == "i32" or op not in ("SDiv", "SRem") else hints[:1]:
                f = F()
                a, b = f.value(ty), f.value(ty)
                f.ranges = {a.base: L.range(*hi[:2]), b.base: L.range(*hi[2:4]), ("obj", "inst", "I"): L.range(*hi[4:])}
                if hi is hints[0]:
                    values(L, out, op, ty, [ty, ty], [a, b], f)
                else:
                    hint(L, out, op, ty, f, a, b, hi)
            for c in (0, 1, -1, 7, -2**31, 2**31 - 1) if ty == "i32" else (2**40, -2**63, 3):
                f = F()
                a, b = f.value(ty), f.const(ty, c)
                f.ranges = {a.base: L.range(-2**31, 2**31 - 1), b.base: L.range(c if abs(c) < 2**31 else 0, c if abs(c) < 2**31 else 0), ("obj", "inst", "I"): L.range(-2**31, 2**31 - 1)}
                values(L, out, op, ty, [ty, ty], [a, b], f, imm="constant %d" % c)
                if op not in ("SDiv", "SRem"):
                    f = F()
                    a, b = f.const(ty, c), f.value(ty)
                    values(L, out, op, ty, [ty, ty], [a, b], f, imm="constant %d on the left" % c)
        for op in INTUN:
            f = F()
            values(L, out, op, ty, [ty], [f.value(ty)], f)
        for cmp in ICMP:
            f = F()
            values(L, out, "ICmp", "i1", [ty, ty], [f.value(ty), f.value(ty)], f, cmp)
    for op in ("And", "Or", "Xor"):
        f = F()
        values(L, out, op, "i1", ["i1", "i1"], [f.value("i1"), f.value("i1")], f)
    for cmp in ("ICmpEqual", "ICmpNotEqual"):
        f = F()
        values(L, out, "ICmp", "i1", ["i1", "i1"], [f.value("i1"), f.value("i1")], f, cmp)
    for op in FPBIN:
        f = F()
        values(L, out, op, "f32", ["f32", "f32"], [f.value("f32"), f.value("f32")], f)
    for op in FPUN:
        f = F()
        values(L, out, op, "f32", ["f32"], [f.value("f32")], f)
    for cmp in FCMP:
        f = F()
        values(L, out, "FCmp", "i1", ["f32", "f32"], [f.value("f32"), f.value("f32")], f, cmp)
    small = ["i1", "i8", "i16", "i32"] + (["i64"] if len(L.ints) == 2 else [])
    for a, b in itertools.product(small, small):
        w = BITS[b] - BITS[a]
        for op in (("ZExt", "SExt") if w > 0 else ("SignedTrunc", "UnsignedTrunc") if w < 0 else ()):
            if op == "SExt" and a == "i1":
                continue
            f = F()
            values(L, out, op, b, [a], [f.value(a)], f)
    for t in L.ints:
        for op, s, d in (("F2S", "f32", t), ("F2U", "f32", t), ("S2F", t, "f32"), ("U2F", t, "f32")):
            f = F()
            values(L, out, op, d, [s], [f.value(s)], f)
    for s, d in (("f32", "i32"), ("i32", "f32")):
        f = F()
        values(L, out, "Bitcast", d, [s], [f.value(s)], f)
    pi = "i64" if len(L.ints) == 2 else "i32"
    for op, s, d in (("PtrCast", "ptr", "ptr"), ("PtrToInt", "ptr", pi), ("IntToPtr", pi, "ptr")):
        f = F()
        if op == "IntToPtr":
            values(L, out, op, d, [s], [f.value(s)], f)
        else:
            values(L, out, op, d, [s], [f.value(s)], f)
    # select: operands of every kind, with and without a comparison as the condition
    for ty in small[0:1] + L.ints + ["f32"]:
        for tk, fk in itertools.product(("v", 0, 1, 5, -1), repeat=2):
            if ty == "f32" and (tk != "v" or fk != "v"):
                continue
            if ty == "i1" and (tk in (5, -1) or fk in (5, -1)):
                continue
            for native, heur in ((1, 0), (1, 1), (0, 0)):
                f = F(native=lambda op, n=native: n, heur=heur)
                c = f.value("i1", cls="LoadInst")
                kids = [c] + [f.value(ty) if k == "v" else f.const(ty, k) for k in (tk, fk)]
                values(L, out, "Select", ty, ["i1", ty, ty], kids, f, imm="%s,%s,native=%d,plain=%d" % (tk, fk, native, heur))
                if ty in L.ints and native and not heur and (fk == 0 or tk == 0):
                    for cmp, k in itertools.product(ICMP, (0, 1, -1)):
                        condselect(L, out, ty, cmp, tk, fk, k)
    return out


def condselect(L, out, ty, cmp, tk, fk, k):
    f = lower.Func(L.E)
    f.fconst = {}
    E = L.E
    x, kc = f.value(ty), f.const(ty, k)
    c = f.value("i1")
    f.mem.update(E.L.inst(c.base, E.ids["ICmp"], E.ty["i1"], [x, kc]))
    f.mem[(c.base, 0)] = (Ptr(E.vt("CompareInst"), 16), 8)
    f.mem[(c.base, E.L.cmp)] = (E.cmps[cmp], 4)
    kids = [c] + [f.value(ty) if q == "v" else f.const(ty, q) for q in (tk, fk)]
    inst = f.inst("Select", ty, kids)
    key = "%s/Select.%s(x %s %d, %s, %s)" % (L.T, ty, cmp, k, tk, fk)
    try:
        codes = L.paths(f, inst)
    except (Undecided, Trap) as e:
        out.append(("undec", key, str(e)))
        return
    n = 0
    for code in codes:
        if code is None or code.result is None:
            continue
        for xv, tv, fv in itertools.product(GRID[ty], [0, 5, -3] if tk == "v" else [tk], [0, 9, -4] if fk == "v" else [fk]):
            cv = int(ICMP[cmp](xv, k))
            env = L.env0(f, {x.base: xv, c.base: cv, kids[1].base: tv, kids[2].base: fv})
            try:
                r = code.execute(L.X, env, mach.Memory(1))
                got = operand(code, env) if r == "end" else r
            except mach.Undef:
                got = "nothing (undefined)"
            except (mach.Unknown, isel.Bad, Undecided) as e:
                out.append(("undec", key, str(e)))
                return
            n += 1
            if got != (tv if cv else fv):
                out.append(("bad", key, "%s: select (%d %s %d), %d, %d gives %s; emitted: %s" % (L.T, xv, cmp, k, tv, fv, got, "; ".join(map(repr, sum(code.blocks.values(), []))))))
                return
    out.append(("ok", key, n))


def hint(L, out, op, ty, f, a, b, hi):
    """the non-negative hints attached to divisions hold for all values of the ranges"""
    inst = f.inst(op, ty, [a, b])
    key = "%s/%s/hint(%s)" % (L.T, op, ",".join(map(str, hi)))
    try:
        codes = L.paths(f, inst)
        for code in codes:
            ins = [i for i in sum(code.blocks.values(), []) if i.name == op]
            if len(ins) != 1:
                raise Undecided("division not recognised")
            o = ins[0].ops
            if o[5].kind != "imm":
                raise Undecided("hint not recognised")
            for bit, lo, what in ((4, hi[0], "dividend"), (2, hi[2], "divisor"), (1, hi[4], "result")):
                if o[5].v & bit and lo < 0:
                    out.append(("bad", key, "%s: %s is marked as having a non-negative %s although the %s lies in [%d, %d]" % (L.T, op, what, what, lo, hi[{4: 1, 2: 3, 1: 5}[bit]])))
                    return
            env = L.env0(f, {a.base: 7, b.base: 2})
            if [L.X.get(x, env) for x in o[1:3]] != [7, 2]:
                out.append(("bad", key, "%s: operands of %s are exchanged" % (L.T, op)))
                return
    except (Undecided, Trap, AttributeError) as e:
        out.append(("undec", key, str(e)))
        return
    out.append(("ok", key, 1))


# ---------------------------------------------------------------- memory
def job_memory(L):
    out = []
    E, T = L.E, L.T
    for ty in ["i1", "i8", "i16"] + L.ints + ["f32"]:
        for op in ("Load", "Store"):
            f = lower.Func(E)
            p = f.value("ptr")
            v = f.value(ty)
            f.align = {p.base: 16, v.base: 3}
            inst = f.inst(op, ty if op == "Load" else "void", [p] if op == "Load" else [p, v], cls=op + "Inst")
            key = "%s/%s.%s" % (T, op, ty)
            try:
                codes = L.paths(f, inst)
            except (Undecided, Trap) as e:
                out.append(("undec", key, str(e)))
                continue
            msg = None
            for code in codes:
                if code is None:
                    continue
                vals = GRID[ty]
                for x in vals:
                    env = L.env0(f, {p.base: 0x1000, v.base: x})
                    mem = mach.Memory(3)
                    n = isel.SIZE[E.optype(ty)]
                    if op == "Load":
                        mem.store(0x1000, n, x)
                        mem.stores = []
                    try:
                        code.execute(L.X, env, mem)
                        got = operand(code, env) if op == "Load" else mem.stores
                    except (mach.Unknown, isel.Bad, Undecided) as e:
                        msg = ("undec", key, str(e))
                        break
                    want = x if op == "Load" else [(0x1000, n, x & ((1 << 8 * n) - 1))]
                    if op == "Load" and ty == "f32":
                        want = uns(x, 32)
                        got = uns(got, 32)
                    if got != want:
                        msg = ("bad", key, "%s: %s of %s %s: %s instead of %s" % (T, op, ty, x, got, want))
                        break
                for i in sum(code.blocks.values(), []):
                    if i.name in ("Load", "Store") and i.ops[2].kind == "imm" and i.ops[2].v > 16:
                        msg = ("bad", key, "%s: %s is marked as aligned to %d bytes, the address is aligned to 16" % (T, op, i.ops[2].v))
                    if i.name in ("Load", "Store") and i.ops[2].kind == "imm" and i.ops[2].v == 3:
                        msg = ("bad", key, "%s: the alignment of %s is taken from the wrong operand" % (T, op))
                if msg:
                    break
            out.append(msg or ("ok", key, len(GRID[ty])))
    # addresses
    pi = "i64" if len(L.ints) == 2 else "i32"
    w = BITS[pi]
    for off in (0, 1, 4, -4, 2047, 2048, 70000, -2**31):
        f = lower.Func(E)
        p, c = f.value("ptr"), f.const(pi, off)
        inst = f.inst("PtrAdd", "ptr", [p, c], cls="PtrAddInst")
        addr(L, out, f, inst, "%s/PtrAdd(%d)" % (T, off), [({p.base: a}, sgn(a + off, w)) for a in (0x1000, 0x7ffffff0)])
    f0 = lower.Func(E)
    shapes = []
    for dims in ([], [3], [3, 5], [2, 3, 4], [1]):
        for el in ("i32", "i8" if T != "MIPS" else "i32", "i64" if w == 64 else "f32"):
            n = len(dims) + 1
            for mix in itertools.product("vc0", repeat=n):
                if n > 2 and mix.count("v") > 2:
                    continue
                shapes.append((dims, el, mix))
    for dims, el, mix in shapes:
        f = lower.Func(E)
        ty = E.ty[el]
        for d in reversed(dims):
            ty = f.array(ty, d)
        p = f.value("ptr")
        f.mem[(p.base, E.L.type)] = (f.pointer(ty), 8)
        idx = []
        for k in mix:
            idx.append(f.value(pi) if k == "v" else f.const(pi, 3 if k == "c" else 0))
        strides = [isel.SIZE[E.optype(el)]]
        for d in reversed(dims):
            strides.insert(0, strides[0] * d)
        inst = f.inst("GetElementPtr", "ptr", idx + [p], cls="GetElementPtrInst")
        cases = []
        for vv in ((1, 2), (0, 0), (-1, 7), (100, -3)):
            it = iter(vv)
            env, a = {p.base: 0x4000}, 0x4000
            for k, i, s in zip(mix, idx, strides):
                x = next(it) if k == "v" else 3 if k == "c" else 0
                if k == "v":
                    env[i.base] = x
                a += x * s
            cases.append((env, sgn(a, w)))
        addr(L, out, f, inst, "%s/GetElementPtr(%s of %s; %s)" % (T, "x".join(map(str, dims)) or "scalar", el, "".join(mix)), cases)
    return out


def addr(L, out, f, inst, key, cases):
    try:
        codes = L.paths(f, inst)
        for code in codes:
            if code is None:
                raise Undecided("not lowered")
            for vals, want in cases:
                env = L.env0(f, vals)
                if code.execute(L.X, env, mach.Memory(1)) != "end":
                    raise Undecided("control flow")
                got = operand(code, env) if code.result else None
                if got != want:
                    out.append(("bad", key, "%s: address %s instead of %s; emitted: %s" % (L.T, got, want, "; ".join(map(repr, sum(code.blocks.values(), []))))))
                    return
    except (Undecided, Trap, mach.Unknown, mach.Undef, isel.Bad) as e:
        out.append(("undec", key, str(e)))
        return
    out.append(("ok", key, len(cases)))


# ---------------------------------------------------------------- control flow
def phis(L, f, name, sources, pred):
    """a block whose phis take sources (index of a phi of the block, or an outside value) from pred"""
    E = L.E
    k = len(sources)
    ph = []
    for i in range(k):
        v = f.value("i32", name=("phi", name, i), cls="PhiInst", op="Phi")
        f.mem[(v.base, E.L.type)] = (E.ty["i32"], 8)
        ph.append(v)
    vals = []
    for i, s in enumerate(sources):
        if isinstance(s, int):
            v = ph[s]
        elif s == "c":
            v = f.const("i32", 77)
        else:
            v = f.ext.setdefault(s, None) or f.value("i32", name=("ext", s))
            f.ext[s] = v
        vals.append(v)
        ref = ("obj", "pref", name, i)
        f.mem[(ref, E.L.refval)] = (v, 8)
        mp = Ptr(ph[i].base, E.L.pi)

        class MM:
            mem = f.mem
        f.h.setmap(MM, mp, "unordered_map", ((pred, Ptr(ref)),))
    tail = f.inst("Branch", "void", [], cls="BranchInst", name=("tail", name))
    return f.block(name, ph + [tail]), ph, vals


def edge_want(f, ph, vals, env):
    out = {}
    for p, v in zip(ph, vals):
        kind, r, _ = f.vals[v.base]
        out[f.vals[p.base][1]] = r if kind == "imm" else env[r]
    return out


def job_branch(L, deep):
    out = []
    E, T = L.E, L.T

    def start(f, inst, cur):
        f.setblock(inst, cur)

    def check(key, f, inst, cases):
        """cases: list of (env, expected block, {register: value})"""
        try:
            codes = L.paths(f, inst)
        except (Undecided, Trap) as e:
            out.append(("undec", key, str(e)))
            return
        for code in codes:
            if code is None:
                out.append(("undec", key, "not lowered"))
                return
            for env, dst, regs in cases:
                e = dict(env)
                try:
                    r = code.execute(L.X, e, mach.Memory(1))
                except (Undecided, mach.Unknown, mach.Undef, isel.Bad) as x:
                    out.append(("undec", key, str(x)))
                    return
                if r != f.blocks[dst.base]:
                    out.append(("bad", key, "%s: control goes to %s instead of %s; emitted: %s" % (T, r[2] if isinstance(r, tuple) and len(r) > 2 else r, dst.base[2], code.blocks)))
                    return
                for k, v in regs.items():
                    if e.get(k) != v:
                        out.append(("bad", key, "%s: a phi of the target block gets %s instead of %s; emitted: %s" % (T, e.get(k), v, "; ".join(map(repr, sum(code.blocks.values(), []))))))
                        return
        out.append(("ok", key, len(cases)))

    def fresh():
        f = lower.Func(E)
        f.ext = {}
        return f

    def regs(f):
        return {r: 1000 + 13 * i for i, (k, r, t) in enumerate(f.vals.values()) if k == "reg"}
    pats = []
    for k in range(0, 4):
        pats += list(itertools.product(list(range(k)) + ["x", "c"], repeat=k))
    pats += [(1, 0, 3, 2), (1, 2, 3, 0), (3, 0, 1, 2), (1, 0, 0, 1), (1, 1, 3, 3), (2, 2, 1, 0), (1, 2, 0, 0), (0, 0, 0, 0), (1, 2, 3, "x"), ("x", 0, 1, 2), (1, 0, "x", "x"), (2, 3, 0, 1), (1, 2, 0, 4, 3),
             (1, 0, 1, 2, 2), (4, 3, 2, 1, 0)]
    if deep:
        pats += [p for p in itertools.product(list(range(4)) + ["x"], repeat=4)]
    for pat in pats:
        f = fresh()
        cur = f.block("src")
        tgt, ph, vals = phis(L, f, "dst", pat, cur)
        inst = f.inst("Branch", "void", [], cls="BranchInst")
        f.mem[(inst.base, E.L.bt)] = (tgt, 8)
        f.mem[(inst.base, E.L.bf)] = (0, 8)
        start(f, inst, cur)
        env = regs(f)
        check("%s/Branch/phis(%s)" % (T, ",".join(map(str, pat))), f, inst, [(env, tgt, edge_want(f, ph, vals, env))])
    # conditional branches
    conds = [("value", None, None)] + [("ICmp", c, t) for c in ICMP for t in L.ints] + [("FCmp", c, "f32") for c in FCMP]
    for kind, cmp, ty in conds:
        for prob in (0.25, 0.75, 0.5):
            f = fresh()
            cur = f.block("src")
            tb, tph, tv = phis(L, f, "true", ("x", 0), cur)
            fb, fph, fv = phis(L, f, "false", (1, 0), cur)
            if kind == "value":
                c = f.value("i1")
                pairs = [({c.base: v}, v) for v in (0, 1)]
            else:
                x, y = f.value(ty), f.value(ty)
                c = f.value("i1", cls="CompareInst", op=kind)
                f.mem.update(E.L.inst(c.base, E.ids[kind], E.ty["i1"], [x, y]))
                f.mem[(c.base, E.L.cmp)] = (E.cmps[cmp], 4)
                pairs = []
                for a, b in itertools.product(GRID[ty][:9] if ty != "f32" else FB[:8], repeat=2):
                    v = int(ICMP[cmp](a, b)) if kind == "ICmp" else int(FCMP[cmp](ieee(a), ieee(b)))
                    pairs.append(({x.base: a, y.base: b, c.base: v}, v))
            inst = f.inst("ConditionalBranch", "void", [c], cls="BranchInst")
            f.mem[(inst.base, E.L.bt)] = (tb, 8)
            f.mem[(inst.base, E.L.bf)] = (fb, 8)
            f.mem[(inst.base, E.L.bp)] = (prob, 8)
            start(f, inst, cur)
            cases = []
            for vals, v in pairs:
                env = regs(f)
                env.update({f.vals[b][1]: q for b, q in vals.items()})
                cases.append((env, tb if v else fb, edge_want(f, tph if v else fph, tv if v else fv, env)))
            check("%s/ConditionalBranch(%s)/probability=%s" % (T, cmp or "value", prob) + ("/" + ty if ty else ""), f, inst, cases)
    # both targets the same block
    f = fresh()
    cur = f.block("src")
    tb, tph, tv = phis(L, f, "both", ("x", "y"), cur)
    c = f.value("i1")
    inst = f.inst("ConditionalBranch", "void", [c], cls="BranchInst")
    f.mem[(inst.base, E.L.bt)], f.mem[(inst.base, E.L.bf)], f.mem[(inst.base, E.L.bp)] = (tb, 8), (tb, 8), (0.5, 8)
    start(f, inst, cur)
    cases = []
    for v in (0, 1):
        env = regs(f)
        env[f.vals[c.base][1]] = v
        cases.append((env, tb, edge_want(f, tph, tv, env)))
    check("%s/ConditionalBranch(same target)" % T, f, inst, cases)
    return out


def job_switch(L):
    out = []
    E, T = L.E, L.T
    if not L.tjump:
        return [("undec", "%s/Switch" % T, "lowerIndirectJump not found")]
    sets = [((0, 1, 2), (-2**31, 2**31 - 1)), ((1, 5, 9), (-2**31, 2**31 - 1)), ((-3, 0, 4), (-2**31, 2**31 - 1)), ((10, 11, 12, 13), (10, 13)), ((0, 2), (0, 3)), ((-2, 2), (-5, 5)), ((3,), (0, 200)),
            ((0, 255), (0, 255)), ((7, 8), (5, 100)), ((100, 120), (0, 1000)), ((-1, 0), (-2**31, 0))]
    JT = ("obj", "jt")
    for keys, rng in sets:
        f = lower.Func(E)
        f.ext = {}
        cur = f.block("src")
        dflt, ph, vals = phis(L, f, "default", ("x", 0), cur)
        edges = [f.block(("case", k)) for k in keys]
        v = f.value("i32")
        inst = f.inst("Switch", "void", [v], cls="SwitchInst")
        f.mem[(inst.base, E.L.sd)] = (dflt, 8)

        class MM:
            mem = f.mem
        f.h.setmap(MM, Ptr(inst.base, E.L.se), "map", tuple(zip(keys, edges)))
        f.setblock(inst, cur)
        f.ranges = {v.base: L.range(*rng)}
        key = "%s/Switch%s in [%d,%d]" % (T, list(keys), *rng)

        def virtual(f_, m, a, e):
            # the target's indirect jump: (function, this, table, offset, ctx)
            if len(a) == 5:
                jt, off = a[2], f_.operand(m, a[3])
                cur = f_.cell(m, "cur", ("obj", "mblock", "cur"))
                b, n = m.load(Ptr(jt.base, jt.off + E.LL.jb), 8, "ptr"), m.load(Ptr(jt.base, jt.off + E.LL.je), 8, "ptr")
                if not isinstance(b, Ptr) or not isinstance(n, Ptr) or b.base != n.base or off is None:
                    raise Undecided("jump table")
                tab = tuple(m.load(Ptr(b.base, b.off + 8 * i), 8, "ptr") for i in range((n.off - b.off) // 8))
                tab = tuple(x.base if isinstance(x, Ptr) else x for x in tab)
                m.events.append(("AUX", cur, ("jump", off, tab)))
                return 0
            return None
        f.virtual = virtual
        f.h.rbegin = None
        try:
            codes = L.paths(f, inst)
        except (Undecided, Trap) as e:
            out.append(("undec", key, str(e)))
            continue
        msg = None
        for code in codes:
            if code is None:
                msg = ("undec", key, "not lowered")
                break

            def aux(ins, env):
                o = code.op(ins[1])
                i = uns(L.X.get(o, env), 64)
                if i >= len(ins[2]):
                    return ("outside", i)
                return ins[2][i]
            tries = sorted({x for k in keys for x in (k - 1, k, k + 1)} | {rng[0], rng[1], rng[0] + 1, rng[1] - 1, 0, -1, 2**31 - 1, -2**31, keys[0] + 2**31 if keys[0] < 0 else keys[0] - 2**31})
            for x in tries:
                if not rng[0] <= x <= rng[1]:
                    continue
                env = {r: 1000 + 13 * i for i, (k, r, t) in enumerate(f.vals.values()) if k == "reg"}
                want = edge_want(f, ph, vals, env)
                env[f.vals[v.base][1]] = x
                dst = edges[keys.index(x)] if x in keys else dflt
                try:
                    r = code.execute(L.X, env, mach.Memory(1), aux)
                except (Undecided, mach.Unknown, mach.Undef, isel.Bad) as e:
                    msg = ("undec", key, str(e))
                    break
                if r != f.blocks[dst.base]:
                    msg = ("bad", key, "%s: switch on %d (labels %s) goes to %s instead of %s" % (T, x, list(keys), r[2] if len(r) > 2 else r, dst.base[2]))
                    break
                if dst is dflt and any(env.get(k) != q for k, q in want.items()):
                    msg = ("bad", key, "%s: switch on %d: the phis of the default block get wrong values" % (T, x))
                    break
            if msg:
                break
        out.append(msg or ("ok", key, len(keys)))
    # the indirect jump itself: table entries are distances from the table
    f = lower.Func(E)
    v = f.value("i32")
    f.vals[v.base] = ("reg", E.M.vreg + 1, "Int32")
    ob = ("obj", "offset")
    f.mem.update(E.M.L.operand(ob, 0, "reg", E.M.vreg + 1, E.ot["Int32"]))
    key = "%s/lowerIndirectJump" % T
    try:
        for t in f.run(L.tjump, [Ptr(("obj", "isel")), Ptr(JT), Ptr(ob), Ptr(("obj", "ctx"))]):
            if t.end != "ret":
                raise Undecided(t.end)
            code = lower.Code(E, t)
            ins = code.blocks.get(code.order[0], [])
            for i in (0, 1, 3, 100):
                env = {E.M.vreg + 1: i}
                mem = mach.Memory(1)
                dist = (0x1234, -0x800, 0x40, -4)[i % 4]
                mem.store(isel.RELOC + 4 * i, 4, dist)
                for x in ins[:-1]:
                    L.X.step(x, env, mem)
                got = L.X.get(ins[-1].ops[0], env)
                if got != isel.RELOC + dist:
                    raise AssertionError("%s: entry %d of the jump table leads to %s instead of table + entry (%s)" % (T, i, got, isel.RELOC + dist))
        out.append(("ok", key, 4))
    except AssertionError as e:
        out.append(("bad", key, str(e)))
    except (Undecided, Trap, mach.Unknown, isel.Bad, IndexError) as e:
        out.append(("undec", key, str(e)))
    # floating-point constants
    n = 0
    for bits in FB + [0x3f000000, 0x40000000, 0x3f801000, 0x3f800001, 0x12345000, 0x7f7fffff, 0xc0000000, 0x00001000]:
        key = "%s/constant %#x" % (T, bits)
        f = lower.Func(E)
        c = f.const("f32", mach.b2f(bits))
        ret = ("obj", "fpret")
        try:
            for t in f.run(L.tfp, [Ptr(ret), Ptr(("obj", "isel")), c, Ptr(("obj", "ctx"))]):
                if t.end != "ret":
                    raise Undecided(t.end)
                o = E.M.L.read(t.mem, ret, 0)
                if o is None:
                    raise Undecided("result not readable")
                if o[0] == "none":
                    continue
                code = lower.Code(E, t)
                env = {}
                code.execute(L.X, env, mach.Memory(1))
                got = L.X.get(isel.Op(o[0], o[1], E.M.tn.get(o[2])), env)
                if not samef(uns(got, 32), bits):
                    raise AssertionError("%s: the constant %r is materialised as %r" % (T, mach.b2f(bits), mach.b2f(uns(got, 32))))
            out.append(("ok", key, 1))
        except AssertionError as e:
            out.append(("bad", key, str(e)))
        except (Undecided, Trap, mach.Unknown, isel.Bad) as e:
            out.append(("undec", key, str(e)))
    return out


LS = {}
DEADLINE = time.time() + 600


def go(j):
    T, what, deep = j
    L = LS[T]
    return j, {"values": job_values, "memory": job_memory, "branch": lambda l: job_branch(l, deep), "switch": job_switch}[what](L)


def body(c):
    for T in ("RISCV", "MIPS", "ARM"):
        LS[T] = Lowerer(T)
        c.units.update(["Target/%s/%sISelInfo.cpp" % (T, T)])
    c.units.update(FILES)
    jobs = [(T, w, c.tier == "thorough") for w in ("branch", "values", "memory", "switch") for T in LS]
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p:
        res = p.map(go, jobs, chunksize=1)
    n = 0
    seen = {}
    for j, out in res:
        for kind, key, x in out:
            if kind == "ok":
                c.ok({"case": key, "valuations": x} if n % 97 == 0 else None)
                n += 1
            elif kind == "bad":
                seen.setdefault(key, []).append(x)
            elif kind == "undec":
                c.undec(key, x)
            else:
                seen.setdefault("note", []).append(key)
    for k, l in seen.items():
        if k != "note":
            c.bad(k, SRC, l[0])
    c.cov["cases"] = n
    c.cov["not lowered (rejected by the compiler)"] = len(seen.get("note", []))
    if n < 1200:
        raise Broken("only %d lowering cases were decided" % n)


main("C18", "other", "the lowering of one IR instruction (operands unknown, types, constants and phi patterns enumerated) is interpreted abstractly; the generic machine instructions and blocks it emits "
     "must compute the instruction's value, memory effect or successor with the phis' values, on a grid of corner values", body)
