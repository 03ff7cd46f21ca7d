"""C21: register sets, argument locations and stack alignment of every target agree with its ABI and with each other."""
from _common import *
from terms import Undecided, Trap
from absint import *
from irtypes import *
import heap, mir
from heap import Heap, IRLayout

REGS = {
    "RISCV": {"g": ["X%d" % i for i in range(32)], "f": ["F%d" % i for i in range(32)], "ns": "cmmc::mir::RISCV::"},
    "MIPS": {"g": ["X%d" % i for i in range(32)], "f": ["F%d" % i for i in range(32)], "ns": "cmmc::mir::MIPS::"},
    "ARM": {"g": ["R%d" % i for i in range(16)], "f": ["S%d" % i for i in range(32)], "ns": "cmmc::mir::ARM::"},
}


def rng(p, *spans):
    return {"%s%d" % (p, i) for a, b in spans for i in range(a, b + 1)}


# preserved: a callee must save; clobbered: a callee may overwrite; the rest is reserved
ABI = {
    "RISCV": {"saved": rng("X", (8, 9), (18, 27)) | rng("F", (8, 9), (18, 27)), "clobbered": rng("X", (1, 1), (5, 7), (10, 17), (28, 31)) | rng("F", (0, 7), (10, 17), (28, 31)),
              "reserved": rng("X", (0, 0), (2, 4)), "ra": "X1", "sp": "X2", "align": 16, "iargs": ["X%d" % i for i in range(10, 18)],
              "fargs": ["F%d" % i for i in range(10, 18)], "iret": "X10", "fret": "F10", "slot": 8, "stack0": 0},
    "MIPS": {"saved": rng("X", (16, 23)) | {"F%d" % i for i in range(20, 32, 2)}, "clobbered": rng("X", (2, 15), (24, 25)) | {"F%d" % i for i in range(0, 20, 2)},
             "reserved": rng("X", (0, 1), (26, 31)) | {"F%d" % i for i in range(1, 32, 2)}, "ra": "X31", "sp": "X29", "align": 8, "iargs": ["X%d" % i for i in range(4, 8)],
             "fargs": ["F12", "F14"], "iret": "X2", "fret": "F0", "slot": 4, "stack0": 16},
    "ARM": {"saved": rng("R", (4, 11)) | rng("S", (16, 31)), "clobbered": rng("R", (0, 3), (12, 12)) | rng("S", (0, 15)), "reserved": rng("R", (13, 15)), "ra": "R14", "sp": "R13",
            "align": 8, "iargs": ["R%d" % i for i in range(4)], "fargs": ["S%d" % i for i in range(16)], "iret": "R0", "fret": "S0", "slot": 4, "stack0": 0},
}
# signatures whose locations are compared between caller and callee
SHAPES = ["", "i", "f", "p", "b", "ii", "ff", "if", "fi", "ip", "pf", "bf", "iii", "fff", "iif", "ifi", "fii", "ffi", "fif", "iiii", "ffff", "fifi", "iiff", "ffii", "pipi",
          "i" * 5, "f" * 5, "i" * 8, "i" * 9, "i" * 12, "f" * 8, "f" * 9, "f" * 17, "if" * 6, "fi" * 9, "i" * 8 + "f" * 8 + "ipfb", "p" * 10, "iiiip", "iiiifip", "b" * 10, "f" * 16 + "ifp" * 3,
          "i" * 9 + "p" + "i", "i" * 8 + "ipipip", "b" * 9 + "ip"]


def body(c):
    Ty = Types()
    L = mir.Layout()
    IL = IRLayout()
    vb, ve = mir.arg_vector()
    ot = enum_values("cmmc/CodeGen/MIR.hpp", "OperandType", "cmmc::mir::")
    us = enum_values("cmmc/CodeGen/MIR.hpp", "StackObjectUsage", "cmmc::mir::")
    k = const_values("cmmc/CodeGen/MIR.hpp", "cmmc::mir::", ["virtualRegBegin", "stackObjectBegin"])
    for T in REGS:
        f = "Target/%s/%sTarget.cpp" % (T, T)
        c.units.add(f)
        bc = bitcode(["IR/Type.cpp", "IR/Instruction.cpp", f])
        vt = vtables(bc)
        r = run_tool("spec", {"modules": bc, "root": TYPE_ROOTS + r"|FrameInfo::(is|get|emit(Call|Return|Prologue)$)|RegisterInfo::(is|get)",
                              "opaque": heap.OPAQUE + ["LoweringContext::(map|new|emit|add|getData|getCodeGen|getCurrent)", "MIRFunction::addStackObject", "CodeGenContext::", "DiagnosticsContext"],
                              "queries": [{"id": "x"}], "cfg": True, "globals": "."})
        fs = functions(r)
        tab = dict(vt)
        for x in r["results"]:
            tab.update(const_table(x["globals"]))
        A, R = ABI[T], REGS[T]
        num = const_values("cmmc/Target/%s/%s.hpp" % (T, T), R["ns"], R["g"] + R["f"], pre='#include <%s/InstInfoDecl.hpp>\n' % T)
        name = {v: n for n, v in num.items()}

        def fn(cls, m):
            for pre in ("cmmc::mir::%s%s::" % (T, cls), "cmmc::mir::Target%s::" % cls):
                if pre + m in fs:
                    return fs[pre + m]
            raise Broken("%s: %s::%s not found" % (T, cls, m))

        def run(cls, m, args, mem=None, call=None, **kw):
            h = Heap()

            def model(mm, n, a, e):
                if n in ("__cxa_guard_acquire",):
                    return 1
                if n in ("__cxa_guard_release", "__cxa_atexit"):
                    return 0
                x = call(mm, n, a, e) if call else None
                return x if x is not None else h.call(mm, n, a, e)
            ld = kw.pop("load", None)

            def loads(mm, p, size, ty):
                if isinstance(p.base, str) and ("guard" in p.base or "_ZGV" in p.base):
                    return 0   # function-local static: not initialised yet
                return ld(mm, p, size, ty) if ld else None
            kw["load"] = loads
            mc = Machine(fn(cls, m), model, args, mem0=mem or {}, funcs=fs, table=tab, keep=lambda key: True, **kw)
            ts = mc.run()
            if mc.truncated or not ts:
                raise Undecided("interpretation cut off")
            return mc, ts

        def flag(m, reg):
            mem = L.operand("op", 0, "reg", reg, ot["Special"])
            _, ts = run("FrameInfo", m, [None, Ptr("op")], mem)
            v = {t.ret for t in ts}
            if len(v) != 1 or not isinstance(next(iter(v)), int):
                raise Undecided("%s(%d): %r" % (m, reg, v))
            return bool(next(iter(v)) & 1)
        # ---- saved and clobbered registers
        lists = {}
        for cls, key in ((0, "g"), (1, "f")):
            ts = None
            try:
                mc, ts = run("RegisterInfo", "getAllocationList", [None, cls])
                t = ts[0]
                p = t.ret
                begin, end = t.mem[(p.base, p.off)][0], t.mem[(p.base, p.off + 8)][0]
                l = [t.mem[(begin.base, begin.off + 4 * i)][0] for i in range((end.off - begin.off) // 4)]
                if len(ts) != 1 or any(not isinstance(x, int) for x in l):
                    raise KeyError
            except (Undecided, KeyError, AttributeError, TypeError) as e:
                c.undec("%s/allocation-list/%s" % (T, key), "not recognised: %r %r" % (e, [t.end for t in ts] if ts else None))
                continue
            lists[key] = l
            bad = False
            for x in l:
                n = name.get(x, str(x))
                if n not in R[key]:
                    bad = True
                    c.bad("%s/allocation-list/%s/%s" % (T, key, n), f, "%s: register %s is in the allocation list of class %d but is not one of its registers" % (T, n, cls))
                elif n in A["reserved"]:
                    bad = True
                    c.bad("%s/allocation-list/%s/%s" % (T, key, n), f, "%s: reserved register %s can be allocated" % (T, n))
            if len(set(l)) != len(l):
                bad = True
                c.bad("%s/allocation-list/%s/duplicate" % (T, key), f, "%s: a register is twice in the allocation list" % T)
            if not bad:
                c.ok({"target": T, "class": cls, "allocatable": len(l)})
        alloc = {name.get(x) for l in lists.values() for x in l}
        for n in R["g"] + R["f"]:
            if n in A["reserved"] and n not in (A["sp"], A["ra"]):
                continue
            try:
                caller, callee = flag("isCallerSaved", num[n]), flag("isCalleeSaved", num[n])
            except (Undecided, Trap) as e:
                c.undec("%s/%s" % (T, n), str(e))
                continue
            if n in A["clobbered"] and n in alloc and not caller:
                c.bad("%s/%s/clobbered" % (T, n), f, "%s: a call may overwrite %s but isCallerSaved(%s) is false" % (T, n, n))
            elif n in A["saved"] and n in alloc and not callee:
                c.bad("%s/%s/preserved" % (T, n), f, "%s: a function must preserve %s but isCalleeSaved(%s) is false" % (T, n, n))
            elif n in A["saved"] and n in alloc and caller:
                c.bad("%s/%s/both" % (T, n), f, "%s: %s is preserved by the ABI but treated as overwritten by calls" % (T, n))
            elif n in A["clobbered"] and n in alloc and callee:
                c.bad("%s/%s/both" % (T, n), f, "%s: %s may be overwritten by calls but is treated as preserved" % (T, n))
            else:
                c.ok({"target": T, "register": n, "caller-saved": caller, "callee-saved": callee})
        # ---- special registers, alignment
        for m, want in (("getReturnAddressRegister", A["ra"]), ("getStackPointerRegister", A["sp"])):
            try:
                x = fn("RegisterInfo", m)
                ret = Ptr(("obj", "ret"))
                _, ts = run("RegisterInfo", m, [ret, None] if x["args"] == 2 else [None])
                o = L.read(ts[0].mem, ret.base, 0)
                if o is None or o[0] != "reg" or len(ts) != 1:
                    raise Undecided("result %r" % (o,))
            except (Undecided, Trap) as e:
                c.undec("%s/%s" % (T, m), str(e))
                continue
            if name.get(o[1]) != want:
                c.bad("%s/%s" % (T, m), f, "%s: %s gives %s instead of %s" % (T, m, name.get(o[1], o[1]), want))
            else:
                c.ok({"target": T, m: want})
        try:
            vals = {t.ret for t in run("FrameInfo", "getStackPointerAlignment", [None, 1])[1]}
            leaf = {t.ret for t in run("FrameInfo", "getStackPointerAlignment", [None, 0])[1]}
            if any(not isinstance(v, int) for v in vals | leaf):
                raise Undecided(repr(vals))
            for v in vals:
                if v % A["align"]:
                    c.bad("%s/stack-alignment=%d" % (T, v), f, "%s: functions that call others keep the stack pointer aligned to %d bytes, the ABI requires %d" % (T, v, A["align"]))
                else:
                    c.ok({"target": T, "stack-alignment": v})
            if any(v <= 0 or v % A["slot"] for v in leaf):
                c.bad("%s/leaf-alignment" % T, f, "%s: leaf functions keep the stack pointer aligned to %r bytes only" % (T, leaf))
        except (Undecided, Trap) as e:
            c.undec("%s/stack-alignment" % T, str(e))
        # canonical type of a register class holds the full register that is saved
        try:
            for cls, ok in ((0, {ot["Int64"]} if A["slot"] == 8 else {ot["Int32"], ot["Int64"]}), (1, {ot["Float32"]})):
                v = {t.ret for t in run("RegisterInfo", "getCanonicalizedRegisterTypeForClass", [None, cls])[1]}
                w = set()
                for tn in (("Bool", "Int8", "Int16", "Int32") + (("Int64",) if A["slot"] == 8 else ()) if cls == 0 else ("Float32",)):
                    w |= {t.ret for t in run("RegisterInfo", "getCanonicalizedRegisterType", [None, ot[tn]])[1] if t.end == "ret"}
                    cl = {t.ret for t in run("RegisterInfo", "getAllocationClass", [None, ot[tn]])[1] if t.end == "ret"}
                    if any(not isinstance(x, int) for x in cl):
                        raise Undecided(repr(cl))
                    if cl != {cls}:
                        c.bad("%s/class/%s" % (T, tn), f, "%s: values of type %s are allocated in register class %r" % (T, tn, cl))
                if any(not isinstance(x, int) for x in v | w):
                    raise Undecided(repr((v, w)))
                if not (v | w) <= ok:
                    c.bad("%s/canonical/%d" % (T, cls), f, "%s: registers of class %d are saved and restored as %r, which does not hold the register" % (T, cls, sorted(v | w)))
                else:
                    c.ok({"target": T, "class": cls, "saved as": sorted(v | w)})
        except (Undecided, Trap) as e:
            c.undec("%s/canonical" % T, str(e))
        # ---- argument and return locations
        dl = Ptr(("obj", "dl"))
        tyname = {"i": "i32", "f": "f32", "p": "ptr", "b": "i1"}
        optype = {"i": ot["Int32"], "f": ot["Float32"], "p": ot["Int64"] if A["slot"] == 8 else ot["Int32"], "b": ot["Bool"], "v": ot["Int32"]}

        class Ctx:
            """model of the lowering context: records what is emitted"""

            def __init__(self, vals):
                self.vals = vals   # value -> (kind, reg, type)

            def put(self, m, dst, kind, v, ty):
                for (b, o), x in L.operand(dst.base, dst.off, kind, v, ty).items():
                    m.store(Ptr(b, o), x[0], x[1])

            def __call__(self, m, n, a, e):
                s = n.rsplit("::", 1)[-1]
                if n.endswith("LoweringContext::emitCopy"):
                    m.events.append(("COPY", L.read(m.mem, a[1].base, a[1].off), L.read(m.mem, a[2].base, a[2].off)))
                    return 0
                if n.endswith("LoweringContext::emitInst"):
                    op, o = L.read_inst(m.mem, a[1].base, 3)
                    m.events.append(("INST", op, o))
                    return 0
                if n.endswith("LoweringContext::newVReg"):
                    t = a[2]
                    if isinstance(t, Ptr):
                        t = optype[{"i32": "i", "f32": "f", "ptr": "p", "i1": "b"}[t.base[2]]]
                    i = m.mem.get((("vregs",), 0), (0, 8))[0]
                    m.mem[(("vregs",), 0)] = (i + 1, 8)
                    self.put(m, a[0], "reg", k["virtualRegBegin"] + 500 + i, t)
                    return 0
                if n.endswith("LoweringContext::mapOperand"):
                    v = a[2].base if isinstance(a[2], Ptr) else a[2]
                    if v not in self.vals:
                        raise Undecided("operand %r" % (v,))
                    self.put(m, a[0], "reg", *self.vals[v])
                    return 0
                if n.endswith("MIRFunction::addStackObject"):
                    i = m.mem.get((("sobj",), 0), (0, 8))[0]
                    m.mem[(("sobj",), 0)] = (i + 1, 8)
                    m.events.append(("OBJ", k["stackObjectBegin"] + i, a[3:]))
                    self.put(m, a[0], "reg", k["stackObjectBegin"] + i, ot["Special"])
                    return 0
                if n.endswith("LoweringContext::mapGlobal"):
                    return Ptr(("obj", "mirglobal"))
                if s == "getDataLayout":
                    return dl
                if s in ("getCodeGenContext", "getCurrentBasicBlock"):
                    return Ptr(("obj", s))
                if n.endswith("LoweringContext::addOperand"):
                    m.events.append(("RESULT", L.read(m.mem, a[2].base, a[2].off)))
                    return 0
                if s == "__dynamic_cast":
                    return a[0]
                return None

        base = Ty.all()
        base[(dl.base, 0)] = (Ptr("@vtable\x01for\x01cmmc::mir::%sDataLayout" % T, 16), 8)

        def virt(i, ch):
            return k["virtualRegBegin"] + i, optype[ch]

        def locate(ev, regside, idx_of):
            """argument index -> location"""
            objs, loc = {}, {}
            for x in ev:
                if x[0] == "OBJ":
                    objs[x[1]] = x[2]
                elif x[0] == "COPY":
                    a, b = (x[1], x[2]) if regside == "dst" else (x[2], x[1])
                    # a: machine register side, b: value side
                    if a and b and a[0] == b[0] == "reg" and a[1] in name and b[1] in idx_of:
                        loc.setdefault(idx_of[b[1]], []).append(("reg", name[a[1]]))
                elif x[0] == "INST":
                    o = [y for y in x[2] if y is not None and y[0] == "reg"]
                    rs = [y[1] for y in o]
                    val = [idx_of[y] for y in rs if y in idx_of]
                    ob = [y for y in rs if y in objs]
                    mr = [name[y] for y in rs if y in name]
                    if val and ob:
                        loc.setdefault(val[0], []).append(("stack", objs[ob[0]]))
                    elif val and mr:
                        loc.setdefault(val[0], []).append(("reg", mr[0]))
            return loc
        for sh in SHAPES:
            key = "%s/(%s)" % (T, sh)
            n = len(sh)
            try:
                vals = {("obj", "arg", i): virt(i, ch) for i, ch in enumerate(sh)}
                idx = {v[0]: i for i, v in enumerate(vals.values())}
                mem = dict(base)
                for i, ch in enumerate(sh):
                    mem[(("obj", "arg", i), IL.type)] = (Ty.obj(tyname[ch])[0], 8)
                fnv = ("obj", "callee")
                I = ("obj", "call")
                mem.update(IL.inst(I, 0, Ty.obj("i32")[0], [Ptr(("obj", "arg", i)) for i in range(n)] + [Ptr(fnv)]))
                mem[(fnv, 0)] = (Ptr("@vtable\x01for\x01cmmc::Function", 16), 8)
                fm = [0]

                def cc(mm, nm, a, e, ctx=Ctx(vals)):
                    return ctx(mm, nm, a, e)
                mc, ts = run("FrameInfo", "emitCall", [None, Ptr(I), Ptr(("obj", "ctx"))], mem, cc, visits=200, max_steps=20000,
                             decide=lambda m, v: 1 if v[0].startswith("icmp-eq") and v[2] == 0 and isinstance(v[1], tuple) and v[1][0] == "ld" and v[1][1] == fnv else None)
                ts = [t for t in ts if t.end == "ret"]
                if len(ts) != 1:
                    raise Undecided("%d ways through emitCall" % len(ts))
                ev = [x for x in ts[0].events if x[0] in ("OBJ", "COPY", "INST", "RESULT")]
                calls = [i for i, x in enumerate(ev) if x[0] == "INST" and x[2] and x[2][0] and x[2][0][0] == "reloc"]
                if len(calls) != 1:
                    raise Undecided("call instruction not recognised")
                out = locate(ev[:calls[0]], "dst", idx)
                late = locate(ev[calls[0]:], "dst", idx)
                res = [x for x in ev[calls[0]:] if x[0] == "COPY"]
                # callee
                fun, abase = ("obj", "mfunc"), ("obj", "margs")
                mem = dict(base)
                for i, ch in enumerate(sh):
                    mem.update(L.operand(abase, i * L.stride, "reg", *virt(i, ch)))
                mem[(fun, vb)], mem[(fun, ve)] = (Ptr(abase, 0), 8), (Ptr(abase, n * L.stride), 8)
                mc, ts2 = run("FrameInfo", "emitPrologue", [None, Ptr(fun), Ptr(("obj", "ctx"))], mem, Ctx(vals), visits=200, max_steps=20000)
                ts2 = [t for t in ts2 if t.end == "ret"]
                if len(ts2) != 1:
                    raise Undecided("%d ways through emitPrologue" % len(ts2))
                inn = locate([x for x in ts2[0].events if x[0] in ("OBJ", "COPY", "INST")], "src", idx)
            except (Undecided, Trap, AttributeError, TypeError, KeyError) as e:
                c.undec(key, "%s: %s" % (type(e).__name__, e))
                continue
            bad = []
            for i in range(n):
                a, b = out.get(i), inn.get(i)
                if a is None and i in late:
                    bad.append("argument %d is moved into place after the call" % i)
                elif not a or not b or len(a) != 1 or len(b) != 1:
                    bad.append("argument %d: caller passes it in %r, callee takes it from %r" % (i, a, b))
                elif a[0][0] != b[0][0] or a[0][0] == "reg" and a[0] != b[0] or a[0][0] == "stack" and a[0][1][2] != b[0][1][2]:
                    bad.append("argument %d: caller passes it in %s, callee takes it from %s" % (i, show(a[0]), show(b[0])))
                elif a[0][0] == "stack" and (a[0][1][3] != us["CalleeArgument"] or b[0][1][3] != us["Argument"]):
                    bad.append("argument %d: stack slot of the wrong kind" % i)
            regs = [x[0][1] for x in out.values() if x and x[0][0] == "reg"]
            if len(set(regs)) != len(regs):
                bad.append("two arguments are passed in the same register")
            spans = sorted((x[0][1][2], x[0][1][2] + x[0][1][0]) for x in out.values() if x and x[0][0] == "stack" and all(isinstance(v, int) for v in x[0][1][:3]))
            if any(p[1] > q[0] for p, q in zip(spans, spans[1:])):
                bad.append("stack slots of two arguments overlap")
            # the ABI itself, for signatures of one class
            if n and set(sh) <= {"i", "p"}:
                for i in range(n):
                    x = (out.get(i) or [None])[0]
                    if x and i < len(A["iargs"]) and x != ("reg", A["iargs"][i]):
                        bad.append("integer argument %d is passed in %s instead of %s" % (i, show(x), A["iargs"][i]))
                    if x and i >= len(A["iargs"]) and (x[0] != "stack" or x[1][2] != A["stack0"] + A["slot"] * (i - len(A["iargs"]))):
                        bad.append("integer argument %d is passed in %s, not at stack offset %d" % (i, show(x), A["stack0"] + A["slot"] * (i - len(A["iargs"]))))
            if n and set(sh) == {"f"}:
                for i in range(min(n, len(A["fargs"]))):
                    x = (out.get(i) or [None])[0]
                    if x and x != ("reg", A["fargs"][i]):
                        bad.append("floating-point argument %d is passed in %s instead of %s" % (i, show(x), A["fargs"][i]))
            rr = [x[2] for x in res]
            if len(res) != 1 or rr[0] is None or name.get(rr[0][1]) != A["iret"]:
                bad.append("integer result taken from %r instead of %s" % ([name.get(x[1]) for x in rr if x], A["iret"]))
            if bad:
                c.bad(key, f, "%s, call with arguments (%s): %s" % (T, ", ".join({"i": "int", "f": "float", "p": "pointer", "b": "bool"}[x] for x in sh), "; ".join(bad[:4])))
            else:
                c.ok({"target": T, "signature": sh, "locations": [show(out[i][0]) for i in range(n)]})
        # results
        for tn, ch in (("i32", "i"), ("f32", "f"), ("i1", "b"), (None, None)):
            key = "%s/return/%s" % (T, tn)
            try:
                got = {}
                for what in ("emitCall", "emitReturn"):
                    mem = dict(base)
                    v, fnv = ("obj", "val"), ("obj", "callee")
                    I = ("obj", "inst")
                    if tn:
                        mem[(v, IL.type)] = (Ty.obj(tn)[0], 8)
                    rt = Ty.obj(tn or "void")[0]
                    mem.update(IL.inst(I, 0, rt, ([Ptr(v)] if tn else []) if what == "emitReturn" else [Ptr(fnv)]))
                    ctx = Ctx({v: virt(1, ch or "i")})
                    _, ts = run("FrameInfo", what, [None, Ptr(I), Ptr(("obj", "ctx"))], mem, ctx, visits=50, decide=lambda m, x: 1 if x[0].startswith("icmp-eq") and x[2] == 0 and isinstance(x[1], tuple) and x[1][0] == "ld" and x[1][1] == fnv else None)
                    ts = [t for t in ts if t.end == "ret"]
                    if len(ts) != 1:
                        raise Undecided("%d ways through %s" % (len(ts), what))
                    cp = [x for x in ts[0].events if x[0] == "COPY"]
                    ins = [i for i, x in enumerate(ts[0].events) if x[0] == "INST"]
                    got[what] = [(name.get(x[2][1]) if what == "emitCall" else name.get(x[1][1])) for x in cp if x[1] and x[2]]
                    if what == "emitReturn" and cp and ts[0].events.index(cp[0]) > ins[-1]:
                        got[what] = ["nothing (moved after the return)"]
            except (Undecided, Trap, AttributeError, TypeError, KeyError) as e:
                c.undec(key, "%s: %s" % (type(e).__name__, e))
                continue
            want = [] if tn is None else [A["fret"] if tn == "f32" else A["iret"]]
            if got["emitCall"] != want or got["emitReturn"] != want:
                c.bad(key, f, "%s: a result of type %s is returned in %r and taken from %r, the ABI says %r" % (T, tn or "void", got["emitReturn"], got["emitCall"], want))
            else:
                c.ok({"target": T, "result": tn, "in": want})
    c.cov["targets"] = list(REGS)
    c.floor(200, "registers and signatures")


def show(x):
    return x[1] if x[0] == "reg" else "stack+%s" % (x[1][2],)


main("C21", "other", "abstract interpretation of every target's isCallerSaved, isCalleeSaved, getAllocationList, special-register and alignment queries on each physical register, against the ABI's table; "
     "emitCall, emitPrologue and emitReturn interpreted on a family of signatures: caller and callee agree on each argument's and result's location, locations are distinct and are those of the ABI", body)
