"""The vocabulary of constants that folding and combining rest on (ConstantInteger, ConstantFloatingPoint):
each accessor is interpreted from its LLVM IR over constant objects of every type at boundary values."""
import math
import struct
from vlib import *
import absint
import irtypes
import heap
from absint import Machine, Ptr
from terms import Undecided, sgn, uns, same

H = '''
#include <cmmc/IR/ConstantValue.hpp>
using namespace cmmc;
extern "C" bool vk_strong(ConstantValue* a, ConstantValue* b) { return ConstantStrongEqual{}(a, b); }
'''
INTS = [0, 1, -1, 2, -2, 3, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32,
        0x123456789abcdef, 2**63 - 1, -2**63, 0x55aa55aa55aa55aa]
FPS = [0.0, -0.0, 1.0, -1.0, 1.5, 0.1, -0.1, 1 / 3, 1e10, 16777217.0, 1e-30, 3.4028234663852886e+38, 1e300, -1e300, 1e-310, math.inf, -math.inf, math.nan, 2.0**-150]


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def body(c):
    base = bitcode(["IR/ConstantValue.cpp", "IR/Instruction.cpp", "IR/Type.cpp", "IR/Value.cpp"])
    rr = r"^cmmc::Constant(Integer|FloatingPoint)::(getSignExtended|getZeroExtended|getStorage|getValue|isEqual|get|getTrue|getFalse)$|" + irtypes.TYPE_ROOTS
    r = run_tool("spec", {"modules": base, "root": rr, "opaque": [r"Arena::", r"^cmmc::IntegerType::get(Boolean)?$", "^__cxa", "ConstantInteger::get(True|False)?$"], "queries": [{"id": "x"}], "cfg": True, "globals": "."})
    by = {}
    by = {}
    for f in r["results"]:
        by.setdefault(heap.strip_args(f["name"]), []).append(f)
    funcs = irtypes.functions(r)
    table = irtypes.vtables(base)
    table.update(absint.const_table(r.get("globals", {})))
    T = irtypes.Types()
    L = heap.IRLayout()
    tmem = T.all()
    ty = {n: Ptr(("obj", "ty", n)) for n in ("i1", "i8", "i16", "i32", "i64", "f32", "f64")}
    off = {}
    for fn, t0, k in (("ConstantInteger::getStorage", "i64", "int"), ("ConstantFloatingPoint::getValue", "double", "fp")):
        fn = "cmmc::" + fn
        if fn not in funcs:
            raise Broken("constant interface not recognised")
        m = Machine(funcs[fn], None, [Ptr("I")], funcs=funcs)
        try:
            ts = m.run()
        except Undecided:
            ts = []
        o = {x[2] for t in ts for x in irtypes.leaves([t.ret]) if x[1] == "I" and x[3] == t0}
        if len(o) != 1:
            raise Broken("constant layout not recognised")
        off[k] = o.pop()

    def const(base_, t, v):
        k = "fp" if isinstance(v, float) else "int"
        cls = "ConstantFloatingPoint" if k == "fp" else "ConstantInteger"
        return {(base_, 0): (Ptr("@vtable\x01for\x01cmmc::" + cls, 16), 8), (base_, L.type): (ty[t], 8), (base_, off[k]): (v, 8)}

    class Host:
        def __init__(self):
            self.n = 0

        def __call__(self, m, name, args, e):
            if name.endswith("Arena::get"):
                return Ptr(("obj", "arena"))
            if name.endswith("Arena::allocate"):
                self.n += 1
                return Ptr(("obj", "new", self.n))
            if name.startswith("__cxa_guard") or "getArenaSource" in name:
                return 1
            if name == "cmmc::IntegerType::getBoolean":
                return ty["i1"]
            if name == "cmmc::IntegerType::get":
                return ty["i%d" % args[0]] if isinstance(args[0], int) else None
            if name in ("cmmc::ConstantInteger::getTrue", "cmmc::ConstantInteger::getFalse") and name in by:
                return None
            if name == "__dynamic_cast":
                o, want = args[0], args[2]
                v = m.load(m.addr(o), 8, "ptr")
                have = v.base.split("cmmc::")[-1] if isinstance(v, Ptr) and isinstance(v.base, str) else None
                w = (want.base if isinstance(want, Ptr) else str(want)).split("cmmc::")[-1]
                if have is None:
                    raise Undecided("class of an operand")
                return o if w in (have, "ConstantValue", "Value") else 0
            return None

    def guards(m, p, size, ty_):
        b = p.base
        if isinstance(b, str) and ("_ZGV" in b or "guard" in b):
            return 0
        return None

    def run(f, args, mem):
        mm = dict(tmem)
        mm.update(mem)
        m = Machine(f, Host(), args, funcs=funcs, table=table, mem0=mm, visits=64, load=guards)
        ts = m.run()
        ts = [t for t in ts if t.end != "unreachable"]
        if len(ts) != 1 or ts[0].end != "ret":
            raise Undecided("%d paths" % len(ts))
        return m, ts[0]

    def where(f):
        return c.loc(f) if hasattr(c, "loc") else next((e["loc"] for b in f["blocks"] for e in b["ev"] if "loc" in e), "IR/ConstantValue.cpp")

    n = 0

    def check(name, cases):
        nonlocal n
        if not by.get("cmmc::" + name):
            raise Broken("%s not found" % name)
        for key, fpick, args, mem, judge, desc in cases:
            fs = [f for f in by["cmmc::" + name] if fpick is None or fpick(f)]
            if len(fs) != 1:
                raise Broken("%d functions %s" % (len(fs), name))
            n += 1
            try:
                m, t = run(fs[0], args, mem)
                why = judge(m, t)
            except Undecided as e:
                c.undec("%s/%s" % (name, key), "%s: %s" % (desc, e))
                continue
            if why is None:
                c.ok({"function": name, "case": desc} if n % 40 == 0 else None)
            else:
                c.bad("%s/%s" % (name, key), "cmmc/IR/ConstantValue.cpp (%s)" % name, "%s: %s" % (desc, why))

    def eqi(want):
        def j(m, t):
            v = t.ret
            if not isinstance(v, int):
                raise Undecided("result %r" % (v,))
            return None if sgn(v, 64) == sgn(want, 64) else "yields %d, by definition %d" % (sgn(v, 64), sgn(want, 64))
        return j

    def eqf(want):
        def j(m, t):
            v = t.ret
            if not isinstance(v, (int, float)):
                raise Undecided("result %r" % (v,))
            return None if same(float(v), want) else "yields %r, by definition %r" % (v, want)
        return j

    def eqb(want):
        def j(m, t):
            v = t.ret
            if not isinstance(v, int):
                raise Undecided("result %r" % (v,))
            return None if bool(v & 1) == want else "answers %s" % bool(v & 1)
        return j

    W = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
    se, ze, st, gv = [], [], [], []
    for t, w in W.items():
        for v in INTS:
            if w == 1 and v not in (0, 1):
                continue
            mem = const(("obj", "C"), t, v)
            d = "%s constant stored as %d" % (t, v)
            se.append((t, None, [Ptr(("obj", "C"))], mem, eqi(v & 1 if w == 1 else sgn(v, w)), d))
            ze.append((t, None, [Ptr(("obj", "C"))], mem, eqi(uns(v, w)), d))
            st.append((t, None, [Ptr(("obj", "C"))], mem, eqi(v), d))
    check("ConstantInteger::getSignExtended", se)
    check("ConstantInteger::getZeroExtended", ze)
    check("ConstantInteger::getStorage", st)
    for t in ("f32", "f64"):
        for v in FPS:
            gv.append((t, None, [Ptr(("obj", "C"))], const(("obj", "C"), t, v), eqf(f32(v) if t == "f32" else v), "%s constant %r" % (t, v)))
    check("ConstantFloatingPoint::getValue", gv)

    for f in by.get("cmmc::ConstantFloatingPoint::isEqual", []):
        if "ConstantValue const*)" in f["root"]:
            funcs[f["name"]] = f    # the virtual one

    def scalar(f):
        return "(double)" in f["root"]

    def value(f):
        return "ConstantValue const*)" in f["root"]
    eq = []
    for t in ("f32", "f64"):
        r_ = f32 if t == "f32" else (lambda x: x)
        for a in FPS:
            for b in FPS:
                zero = r_(a) == 0 and r_(b) == 0 and math.copysign(1, a) != math.copysign(1, b)
                if not zero:
                    eq.append((t + "-value", scalar, [Ptr(("obj", "C")), b], const(("obj", "C"), t, a), eqb(r_(a) == r_(b)), "%s constant %r against the number %r" % (t, a, b)))
                mem = const(("obj", "C"), t, a)
                mem.update(const(("obj", "D"), t, b))
                eq.append((t + "-constant", value, [Ptr(("obj", "C")), Ptr(("obj", "D"))], mem, eqb(r_(a) == r_(b) and not zero), "%s constants %r and %r, which are %sinterchangeable" % (t, a, b, "" if r_(a) == r_(b) and not zero else "not ")))
    check("ConstantFloatingPoint::isEqual", eq)
    eq = []
    for t, w in W.items():
        vs = [v for v in INTS if w > 1 or v in (0, 1)]
        for a in vs:
            for b in vs[:8] + [a]:
                mem = const(("obj", "C"), t, a)
                mem.update(const(("obj", "D"), t, b))
                eq.append((t, None, [Ptr(("obj", "C")), Ptr(("obj", "D"))], mem, eqb(sgn(a, w) == sgn(b, w)), "%s constants stored as %d and %d" % (t, a, b)))
    check("ConstantInteger::isEqual", eq)

    # what ConstantMerge pools on: only constants of one type and one value are the same constant
    bc = harness("constvals", H)
    if bc is None:
        raise Broken("ConstantStrongEqual not recognised")
    rs = run_tool("spec", {"modules": [bc], "root": "^vk_strong$", "opaque": ["^__cxa", "^__dynamic_cast"], "queries": [{"id": "x"}], "cfg": True, "globals": "."})
    by["cmmc::ConstantStrongEqual"] = [f for f in rs["results"] if f["name"] == "vk_strong"]
    eq = []
    pool = [(t, v) for t in ("f32", "f64") for v in (0.0, -0.0, 1.0, 0.1)] + [("i1", 0), ("i1", 1), ("i8", 1), ("i8", -1), ("i32", 0), ("i32", 1), ("i32", -1), ("i64", 1), ("i64", 2**32 - 1)]
    for t, a in pool:
        for u, b in pool:
            mem = const(("obj", "C"), t, a)
            mem.update(const(("obj", "D"), u, b))
            want = t == u and repr(a) == repr(b)
            eq.append(("%s-%s" % (t, u), None, [Ptr(("obj", "C")), Ptr(("obj", "D"))], mem, eqb(want), "%s %r and %s %r" % (t, a, u, b)))
    check("ConstantStrongEqual", eq)

    # the factory: a constant of exactly the type asked for and, modulo its width, the value
    def built(t, v):
        def j(m, tr):
            p = tr.ret
            if isinstance(p, tuple) and not isinstance(p, Ptr) and p and p[0] == "call":
                fn = [str(x) for x in p]
                raise Undecided("result is a call")
            if not isinstance(p, Ptr):
                raise Undecided("result %r" % (p,))
            mem = tr.mem if hasattr(tr, "mem") else m.mem
            tt = mem.get((p.base, p.off + L.type))
            vv = mem.get((p.base, p.off + off["int"]))
            if tt is None or vv is None or not isinstance(vv[0], int):
                raise Undecided("fields of the constant")
            if tt[0] != ty[t]:
                return "the constant's type is %r" % (tt[0],)
            w = W[t]
            if uns(vv[0], w) != uns(v, w):
                return "the constant holds %d" % vv[0]
            return None
        return j
    gs = []
    for t in W:
        for v in INTS:
            gs.append((t, None, [ty[t], v], {}, built(t, v), "get(%s, %d)" % (t, v)))
    check("ConstantInteger::get", gs)
    c.cov["constant_vocabulary"] = n
