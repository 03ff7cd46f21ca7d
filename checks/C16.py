"""C16: the interpreter executes each operation as defined."""
from _common import *
import math, re
from functools import reduce
from terms import sgn, uns, Eval, Undecided, Trap, show, same, P
from semantics import *

FILES = ["ExecutionEngine/Interpreter.cpp", "IR/ConstantValue.cpp"]
OPAQUE = [
    {"re": "cmmc::Instruction::getInstID|CompareInst::getOp$", "eff": "none"},
    {"re": "ConstantInteger::get(Sign|Zero)Extended|ConstantFloatingPoint::getValue|cmmc::Value::getType", "eff": "none"},
    "ConstantInteger::ConstantInteger|ConstantFloatingPoint::ConstantFloatingPoint", "cmmc::.*MemoryContext::",
    "report(Fatal|Unreachable|NotImplemented)|DiagnosticsContext", "cmmc::.*dump",
    "unordered_map|_Hashtable|std::vector.*::(emplace|push|_M|insert|reserve|clear|pop)|std::map|Rb_tree", "std::.*ostream|operator<<",
    "steady_clock|system_clock", "StringFlyWeight|cmmc::String"]
NAMES = list(INTBIN) + list(INTUN) + list(FPBIN) + list(FPUN) + [n for n in CASTS] + ["ICmp", "FCmp", "FFma", "Select"]


def gep_off(t, ev):
    """byte offset of an operand slot within the operand vector, and its base"""
    off = 0
    while isinstance(t, tuple) and t[0] == "gep":
        off += int(t[1])
        for m in t[3:]:
            off += int(m[1]) * ev(m[2])
        t = t[2]
    return off, t


class OpModel:
    def __init__(self, opnds, w, stride, cmpop=None):
        self.o, self.w, self.stride, self.cmpop = opnds, w, stride, cmpop

    def slot(self, t, ev):
        off, base = gep_off(t, ev)
        if not (isinstance(base, tuple) and base[0] == "load:ptr"):
            raise Undecided("operand base")
        k = off // self.stride
        if k >= len(self.o):
            raise Undecided("operand index")
        return self.o[k]

    def __call__(self, t, ev):
        if isinstance(t, str) or t[0] != "call":
            return None
        f = terms.unesc(t[1])
        if f.endswith("ConstantInteger::getSignExtended"):
            return sgn(self.slot(t[2], ev), self.w)
        if f.endswith("ConstantInteger::getZeroExtended"):
            return uns(self.slot(t[2], ev), self.w)
        if f.endswith("ConstantFloatingPoint::getValue"):
            return self.slot(t[2], ev)
        if f.endswith("CompareInst::getOp"):
            return self.cmpop
        return None


def live(sink, ev):
    """False when a branch condition that must hold to reach the sink is false at this valuation"""
    for cond, pol in sink["must"]:
        try:
            if bool(ev(cond)) != bool(pol):
                return False
        except (Undecided, Trap):
            pass
    return True


def body(c):
    bc = bitcode(FILES)
    c.units |= set(FILES)
    ids = enum_values("cmmc/IR/Instruction.hpp", "InstructionID")
    cmps = enum_values("cmmc/IR/Instruction.hpp", "CompareOp")
    fails = enum_values("cmmc/ExecutionEngine/Interpreter.hpp", "SimulationFailReason")
    for n in NAMES:
        if n not in ids:
            raise Broken("instruction %s vanished" % n)
    spec = {"modules": bc, "root": r"^cmmc::Interpreter::execute$", "opaque": OPAQUE,
            "queries": [{"id": n, "seeds": [{"re": "Instruction::getInstID", "val": ids[n]}]} for n in ["Unreachable"] + NAMES],
            "sinks": ["ConstantInteger::ConstantInteger$|FloatingPoint::ConstantFloatingPoint$|insert_or_assign"]}
    r = run_tool("spec", spec)
    if len(r["roots"]) != 1:
        raise Broken("interpreter loop not found")
    sinks, rets = {}, {}
    for x in r["results"]:
        l = []
        for s in x["sinks"]:
            kind = "int" if s["callee"].endswith("ConstantInteger") else "fp" if s["callee"].endswith("FloatingPoint") else "store"
            if kind != "store" and len(s["args"]) < 3:
                continue  # copy constructors
            l.append((kind, tuple(re.sub(r"\(alloca \d+\)", "(alloca 1)", a) for a in s["args"][1:]), s))
        sinks[x["id"]] = l
        rets[x["id"]] = str(x["rets"])
    base = {(k, a[-1]) for k, a, s in sinks["Unreachable"]}
    # operand slots: the stride is the size of one entry of the operand vector
    offs = set()
    own = {}
    for n in NAMES:
        own[n] = []
        for kind, args, s in sinks[n]:
            if (kind, args[-1]) in base:
                continue
            try:
                term = P(args[-1])
            except Exception:
                continue
            own[n].append({"kind": kind, "term": term, "must": [(P(m[0]), m[1]) for m in s["must"]], "loc": s["loc"], "type": args[0]})

    def scan(t):
        if isinstance(t, tuple):
            if t[0] == "call" and len(t) > 2 and ("Extended" in t[1] or "getValue" in t[1]) and isinstance(t[2], tuple) and t[2][0] == "gep":
                try:
                    offs.add(int(t[2][1]))
                except ValueError:
                    pass
            for x in t:
                scan(x)
    for n in NAMES:
        for s in own[n]:
            scan(s["term"])
    offs.discard(0)
    if not offs:
        raise Broken("operand slots not recognised")
    stride = reduce(math.gcd, offs)
    dz = fails["DividedByZero"]
    nval = 0

    def judge(name, n, cases, w, kind):
        nonlocal nval
        S = [s for s in own[n] if s["kind"] == kind]
        if not S:
            # the other kind of result would be a type error at run time
            if any(s["kind"] in ("int", "fp") for s in own[n]):
                c.bad("%s/kind" % name, own[n][0]["loc"], "executing %s produces a constant of the wrong kind" % name)
            elif own[n]:
                c.undec(name, "no result constant found")
            else:
                c.bad("%s/none" % name, "cmmc/ExecutionEngine/Interpreter.cpp", "executing %s produces no result" % name)
            return
        loc = S[0]["loc"]
        for opnds, want, cmpop in cases:
            ev = Eval(OpModel(opnds, w, stride, cmpop))
            reached = 0
            for s in S:
                if not live(s, ev):
                    continue
                reached += 1
                if want == "stop":
                    c.bad("%s/guard" % name, s["loc"], "executing %s with operands %r continues with a result instead of reporting division by zero" % (name, opnds))
                    return
                try:
                    v = ev(s["term"])
                except Trap as e:
                    c.bad("%s/trap" % name, s["loc"], "executing %s with operands %r performs a host %s" % (name, opnds, e))
                    return
                except Undecided as e:
                    c.undec(name, "%r: %s in %s" % (opnds, e, show(s["term"], 120)))
                    return
                if want is None:
                    continue
                good = sgn(v, w) == sgn(want, w) if kind == "int" else (same(float(v), want) if is_num(v) else v == want)
                if not good:
                    c.bad("%s/value" % name, s["loc"], "executing %s with operands %r (%d bits) yields %r, by definition %r" % (name, opnds, w, v, want))
                    return
            nval += 1
            if reached == 0 and want not in (None, "stop"):
                c.bad("%s/noresult" % name, loc, "executing %s with operands %r never produces a result" % (name, opnds))
                return
        c.ok({"instruction": name, "width": w, "term": show(S[0]["term"], 160), "where": loc})

    is_num = terms.is_num
    W = [32, 64]
    iv = lambda w: sorted({sgn(x, w) for x in terms.INTS})
    for n in INTBIN:
        div = n in ("SDiv", "UDiv", "SRem", "URem")
        for w in W:
            if n in ("Shl", "LShr", "AShr"):
                pairs = [(a, b) for a in iv(w) for b in (0, 1, 5, w // 2, w - 1)]
            else:
                pairs = [(a, b) for a in iv(w) for b in iv(w)]
            cases = [([a, b], "stop" if div and b == 0 else INTBIN[n](a, b, w), None) for a, b in pairs]
            judge(n, n, cases, w, "int")
        if div:
            c.expect("(inttoptr %d)" % dz in rets[n] or " %d " % dz in rets[n] or "ite" in rets[n], "%s/report" % n, "cmmc/ExecutionEngine/Interpreter.cpp",
                     "executing %s has no path reporting division by zero" % n)
    for n in INTUN:
        for w in W:
            judge(n, n, [([a], INTUN[n](a, w), None) for a in iv(w)], w, "int")
    for n in FPBIN:
        judge(n, n, [([a, b], FPBIN[n](a, b), None) for a in terms.FPS for b in terms.FPS], 64, "fp")
    for n in FPUN:
        judge(n, n, [([a], FPUN[n](a), None) for a in terms.FPS], 64, "fp")
    judge("FFma", "FFma", [([a, b, d], ("fma", tuple(sorted((repr(a), repr(b)))), repr(d)), None)
                           for a, b, d in [(2.0, 3.0, 5.0), (1.5, -2.25, 0.5), (3.0, 7.0, -1.0)]], 64, "fp")
    for n in CASTS:
        sk, dk, fn = CASTS[n]
        if sk == "f":
            vals = [a for a in terms.FPS if not (math.isnan(a) or math.isinf(a) or abs(a) >= 2**31 or (n == "F2U" and a <= -1))]
            judge(n, n, [([a], fn(a), None) for a in vals], 64, "int" if dk == "i" else "fp")
        else:
            for w in W:
                cases = [([a], fn(a if sk == "s" else uns(a, w)), None) for a in iv(w)]
                # the value is extended from the source width w; compare all 64 bits
                judge2 = [(o, sgn(v, 64) if dk == "i" else v, k) for o, v, k in cases]
                S = [s for s in own[n] if s["kind"] == ("int" if dk == "i" else "fp")]
                bad = None
                for o, v, k in judge2:
                    ev = Eval(OpModel(o, w, stride))
                    for s in S:
                        try:
                            if live(s, ev):
                                got = ev(s["term"])
                                ok = sgn(got, 64) == v if dk == "i" else same(float(got), v)
                                if not ok:
                                    bad = bad or (s["loc"], o, got, v)
                        except Undecided as e:
                            c.undec(n, str(e))
                    nval += 1
                if not S:
                    c.bad("%s/none" % n, "cmmc/ExecutionEngine/Interpreter.cpp", "executing %s produces no result of the right kind" % n)
                elif bad:
                    c.bad("%s/value" % n, bad[0], "executing %s on %r (source %d bits) yields %r, by definition %r" % (n, bad[1], w, bad[2], bad[3]))
                else:
                    c.ok({"instruction": n, "width": w})
    for n, table in (("ICmp", ICMP), ("FCmp", FCMP)):
        for op, fn in table.items():
            # ordered-not-equal and unordered-equal are never created: the front end and getInvertedOp are closed over the others
            if op not in cmps or op in ("FCmpOrderedNotEqual", "FCmpUnorderedEqual"):
                continue
            vals = [0, 1, -1, 5, -7, 2**31 - 1, -2**31, 2**63 - 1, -2**63] if n == "ICmp" else terms.FPS
            judge("%s.%s" % (n, op), n, [([a, b], int(bool(fn(a, b))), cmps[op]) for a in vals for b in vals], 1 if False else 64, "int")
    # select: which operand slot is stored
    S = [s for s in own["Select"] if s["kind"] == "store"]
    if not S:
        c.undec("Select", "no store of an operand found")
    for cond, slot in ((0, 2), (1, 1)):
        m = OpModel([cond, 10, 20], 1, stride)
        ev = Eval(m)
        try:
            got = {gep_off(s["term"], ev)[0] // stride for s in S if live(s, ev) and "load:ptr" in str(s["term"])}
        except Undecided as e:
            c.undec("Select", str(e))
            continue
        if got:
            c.expect(got == {slot}, "Select/%d" % cond, S[0]["loc"], "select with condition %d yields operand %s instead of operand %d" % (cond, sorted(got), slot))
    c.cov["valuations"] = nval
    c.floor(60, "interpreted operations")


main("C16", "other", "conditional constant propagation of the interpreter loop under each opcode; every result constant it can build (with the branch conditions that dominate it) "
     "is compared, as an extracted term, with the operation's definition at boundary valuations of the operands", body)
