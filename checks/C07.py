"""C07: constant folding computes the value the instruction has by definition."""
from _common import *
import math
import constvals
from terms import sgn, uns, Eval, Undecided, Trap, outcomes, show, same, f32, P

from semantics import *

CLS = {}
for n in INTBIN:
    CLS[n] = "cmmc::BinaryInst"
for n in FPBIN:
    CLS[n] = "cmmc::BinaryInst"
for n in list(INTUN) + list(FPUN):
    CLS[n] = "cmmc::UnaryInst"
for n in CASTS:
    CLS[n] = "cmmc::CastInst"
CLS["ICmp"] = CLS["FCmp"] = "cmmc::CompareInst"
CLS["FFma"] = "cmmc::FMAInst"

WIDTHS = [32, 64]


def ivals(w):
    v = sorted({sgn(x, w) for x in terms.INTS})
    return v


def model_for(cls, opnds, w, cmpop=None):
    """opnds: list of python values; int -> ConstantInteger of width w, float -> ConstantFloatingPoint"""
    def opk(t, ev):
        v = ev(t)
        if isinstance(v, tuple) and v[0] == "opnd":
            return opnds[v[1]]
        raise Undecided("operand")

    def model(t, ev):
        if t == "arg1":
            return ("inst",)
        if isinstance(t, str):
            return None
        h = t[0]
        if h == "gep" and isinstance(t[2], str) and t[2].startswith("@vtable"):
            return ("vt", terms.unesc(t[2])[len("@vtable for "):])
        if h == "load:ptr":
            v = None
            try:
                v = ev(t[1])
            except Undecided:
                return None
            if v == ("inst",):
                return ("vt", cls)
            if isinstance(v, tuple) and v[0] == "opnd":
                return ("vt", "cmmc::ConstantFloatingPoint" if isinstance(opnds[v[1]], float) else "cmmc::ConstantInteger")
            return None
        if h != "call":
            return None
        f = terms.unesc(t[1])
        if f.endswith("Instruction::getOperand"):
            k = ev(t[3])
            if k >= len(opnds):
                raise Undecided("operand index")
            return ("opnd", k)
        if f.endswith("getSignExtended"):
            return sgn(opk(t[2], ev), w)
        if f.endswith("getZeroExtended"):
            return uns(opk(t[2], ev), w)
        if f.endswith("ConstantFloatingPoint::getValue"):
            return opk(t[2], ev)
        if f.endswith("CompareInst::getOp"):
            return cmpop
        if f.endswith("Value::getType"):
            return ("type", ev(t[2]))
        if f.endswith("ConstantInteger::get"):
            return ("CI", ev(t[2]), ev(t[3]))
        if f.endswith("Arena::allocate"):
            return ("obj",)
        if f == "__dynamic_cast":
            o = ev(t[2])
            want = terms.unesc(t[4])[len("@typeinfo for "):]
            have = cls if o == ("inst",) else ("cmmc::ConstantFloatingPoint" if isinstance(opnds[o[1]], float) else "cmmc::ConstantInteger")
            if want == have:
                return o
            if have in ("cmmc::ConstantInteger", "cmmc::ConstantFloatingPoint") and want == "cmmc::ConstantValue":
                return o
            return 0
        return None
    return model


def results(tree, model):
    """what the fold produces: None (no fold) | ('i', v) | ('f', v) | ('op', k)"""
    ev, outs = outcomes(tree, model)
    res = set()
    for evs, ret in outs:
        v = ev(ret)
        if v == 0:
            res.add(None)
        elif isinstance(v, tuple) and v[0] == "CI":
            res.add(("i", v[2], v[1]))
        elif v == ("obj",):
            fp = [e for e in evs if e[0].endswith("ConstantFloatingPoint::ConstantFloatingPoint")]
            if not fp:
                raise Undecided("allocated constant not constructed")
            res.add(("f", repr(ev(fp[-1][1][2])) if isinstance(ev(fp[-1][1][2]), float) else ev(fp[-1][1][2]), ev(fp[-1][1][1])))
        elif isinstance(v, tuple) and v[0] == "opnd":
            res.add(("op", v[1], None))
        else:
            raise Undecided("result")
    return res


def judge(c, name, tree, loc, cases, w):
    """cases: iterable of (model, expected, description); expected None = must not be compared (undefined in the IR)"""
    n = 0
    for model, want, desc in cases:
        try:
            got = results(tree, model)
        except Trap as e:
            c.bad("%s/trap" % name, loc, "folding %s at %s executes a host %s" % (name, desc, e))
            return
        except Undecided as e:
            c.undec(name, "%s: %s" % (desc, e))
            return
        n += 1
        for g in got:
            if g is None or want is None:
                continue
            kind, val, ty = g
            if kind == "op":
                continue
            if ty != ("type", ("inst",)):
                c.bad("%s/type" % name, loc, "folding %s builds a constant whose type is not the instruction's type" % name)
                return
            good = (kind == want[0]) and (sgn(val, w) == sgn(want[1], w) if kind == "i" else
                                          (same(float(val), want[1]) if isinstance(val, str) else val == want[1]))
            if not good:
                c.bad("%s/value" % name, loc, "folding %s at %s (%d bits) yields %r, by definition %r" % (name, desc, w, val, want[1]))
                return
    c.ok({"instruction": name, "width": w, "valuations": n})


def find_loc(tree):
    if isinstance(tree, dict):
        for e in tree.get("ev", ()):
            if "callee" in e and not e["loc"].endswith(":0"):
                return e["loc"]
        for k in ("next", "T", "F", "default"):
            if k in tree:
                r = find_loc(tree[k])
                if r:
                    return r
        for s in tree.get("cases", {}).values():
            r = find_loc(s)
            if r:
                return r
    return None


def has_sink(tree):
    if not isinstance(tree, dict):
        return False
    if any("callee" in e for e in tree.get("ev", ())):
        return True
    return any(has_sink(tree[k]) for k in ("next", "T", "F", "default") if k in tree) or any(has_sink(s) for s in tree.get("cases", {}).values())


def body(c):
    files = ["Transforms/Combine/ConstantPropagation.cpp", "IR/ConstantValue.cpp"]
    bc = bitcode(files)
    c.units |= set(files)
    ids = enum_values("cmmc/IR/Instruction.hpp", "InstructionID")
    cmps = enum_values("cmmc/IR/Instruction.hpp", "CompareOp")
    names = list(INTBIN) + list(INTUN) + list(FPBIN) + list(FPUN) + list(CASTS) + ["ICmp", "FCmp", "FFma"]
    for n in names:
        if n not in ids:
            raise Broken("instruction %s vanished" % n)
    spec = {
        "modules": bc, "root": r"ConstantPropagation::", "root_full": r"operator\(\)\(cmmc::Instruction\*\) const$",
        "opaque": [
            {"re": r"cmmc::Instruction::getInstID$|CompareInst::getOp$", "eff": "none"},
            {"re": r"ConstantInteger::get(Sign|Zero)Extended$|ConstantFloatingPoint::getValue$|cmmc::Value::getType$|Instruction::getOperand$", "eff": "none"},
            {"re": "dynamic_cast", "eff": "none"}, {"re": "cmmc::Value::isConstant$", "eff": "none"},
            "ConstantInteger::get$", "ConstantFloatingPoint::ConstantFloatingPoint$", "report(Fatal|Unreachable|NotImplemented)|DiagnosticsContext"],
        "queries": [{"id": n, "seeds": [{"re": "Instruction::getInstID$", "val": ids[n], "field_base": "^arg1$"}, {"re": "isConstant$", "val": 1}]} for n in names],
        "sinks": ["ConstantInteger::get$|FloatingPoint::ConstantFloatingPoint$"], "tree": True}
    r = run_tool("spec", spec)
    if len(r["roots"]) != 1:
        raise Broken("constant folding callback not found (%d candidates)" % len(r["roots"]))
    nfold = 0
    nval = 0
    for x in r["results"]:
        n, tree = x["id"], x["tree"]
        loc = find_loc(tree) or "cmmc/Transforms/Combine/ConstantPropagation.cpp"
        if has_sink(tree):
            nfold += 1
        cls = CLS[n]
        if n in INTBIN:
            for w in WIDTHS:
                vs = ivals(w)
                if n in ("Shl", "LShr", "AShr"):
                    pairs = [(a, b) for a in vs for b in (0, 1, 5, w // 2, w - 1)]
                else:
                    pairs = [(a, b) for a in vs for b in vs]
                cases = []
                for a, b in pairs:
                    e = INTBIN[n](a, b, w)
                    cases.append((model_for(cls, [a, b], w), None if e is None else ("i", e), "(%d, %d)" % (a, b)))
                judge(c, n, tree, loc, cases, w)
                nval += len(cases)
        elif n in INTUN:
            for w in WIDTHS:
                cases = [(model_for(cls, [a], w), ("i", INTUN[n](a, w)), "(%d)" % a) for a in ivals(w)]
                judge(c, n, tree, loc, cases, w)
                nval += len(cases)
        elif n in FPBIN:
            cases = [(model_for(cls, [a, b], 64), ("f", FPBIN[n](a, b)), "(%r, %r)" % (a, b)) for a in terms.FPS for b in terms.FPS]
            judge(c, n, tree, loc, cases, 64)
            nval += len(cases)
        elif n in FPUN:
            cases = [(model_for(cls, [a], 64), ("f", FPUN[n](a)), "(%r)" % a) for a in terms.FPS]
            judge(c, n, tree, loc, cases, 64)
            nval += len(cases)
        elif n == "FFma":
            cases = []
            for a, b, d in [(2.0, 3.0, 5.0), (1.5, -2.25, 0.5), (3.0, 7.0, -1.0)]:
                cases.append((model_for(cls, [a, b, d], 64), ("f", ("fma", tuple(sorted((repr(a), repr(b)))), repr(d))), "(%r, %r, %r)" % (a, b, d)))
            judge(c, n, tree, loc, cases, 64)
        elif n in CASTS:
            sk, dk, fn = CASTS[n]
            for w in WIDTHS:
                cases = []
                if sk == "f":
                    for a in terms.FPS:
                        if math.isnan(a) or math.isinf(a) or abs(a) >= 2**31 or (n == "F2U" and a <= -1):
                            continue
                        cases.append((model_for(cls, [a], w), (dk, fn(a)), "(%r)" % a))
                else:
                    for a in ivals(w):
                        cases.append((model_for(cls, [a], w), (dk, fn(a if sk == "s" else uns(a, w))), "(%d)" % a))
                judge(c, n, tree, loc, cases, 64)
                nval += len(cases)
        elif n in ("ICmp", "FCmp"):
            table = ICMP if n == "ICmp" else FCMP
            for op, fn in table.items():
                if op not in cmps:
                    continue
                vals = [0, 1, -1, 5, -7, 2**31 - 1, -2**31, 2**63 - 1, -2**63] if n == "ICmp" else terms.FPS
                cases = [(model_for(cls, [a, b], 64, cmps[op]), ("i", int(bool(fn(a, b)))), "(%r, %r)" % (a, b)) for a in vals for b in vals]
                judge(c, "%s.%s" % (n, op), tree, loc, cases, 1)
                nval += len(cases)
    if nfold < 30:
        raise Broken("only %d instructions are folded at all (34 confirmed by hand)" % nfold)
    constvals.body(c)
    c.cov["instructions_folded"] = nfold
    c.cov["valuations"] = nval


main("C07", "other", "conditional constant propagation of the folding callback under each opcode; every constant it can build is compared, as an extracted "
     "term, with the instruction's definition at boundary valuations of the operands; a term that divides by zero or overflows in a division is a host trap", body)
