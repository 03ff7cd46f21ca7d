"""C09: instruction classification never hides an effect."""
from _common import *
import re
from vlib import harness
from terms import Undecided, Trap, unesc, show
from absint import *

TERM = {"Ret", "Branch", "ConditionalBranch", "Unreachable", "Switch"}
MEM = {"Load", "Store", "AtomicAdd"}
INT = {"Add", "Sub", "Mul", "SDiv", "UDiv", "SRem", "URem", "Neg", "Abs", "And", "Or", "Xor", "Shl", "LShr", "AShr", "SMin", "SMax"}
FP = {"FAdd", "FSub", "FMul", "FDiv", "FNeg", "FAbs", "FFma"}
CMP = {"ICmp", "FCmp"}
CONV = {"SExt", "ZExt", "SignedTrunc", "UnsignedTrunc", "Bitcast", "F2U", "F2S", "U2F", "S2F", "FCast"}
OTHER = {"Alloc", "GetElementPtr", "PtrCast", "PtrToInt", "IntToPtr", "PtrAdd", "Select", "Call", "Phi", "FunctionPtr"}
ALL = TERM | MEM | INT | FP | CMP | CONV | OTHER
DIV = {"SDiv", "UDiv", "SRem", "URem"}
CATS = {"isTerminator": TERM, "isMemoryOp": MEM, "isIntegerOp": INT, "isFloatingPointOp": FP, "isCompareOp": CMP, "isConvertOp": CONV,
        "isBranch": {"Branch", "ConditionalBranch", "Switch"}}

HARNESS = "#include <cmmc/IR/Instruction.hpp>\nusing namespace cmmc;\n" + "".join(
    'extern "C" bool vk_%s(const Instruction* i) { return i->%s(); }\n' % (n, n) for n in CATS) + \
    'extern "C" int vk_id(const Instruction* i) { return static_cast<int>(i->getInstID()); }\n'

LEAVES = [{"re": "cmmc::Instruction::getInstID$|Instruction::(lastOperand|getOperand)|::hasAttr|Value::getType|isVoid|ConstantInteger::get(Zero|Sign)Extended|Type::isVoid|::mustBe|::attr$|isNoSideEffectExpr|isConstant$", "eff": "none"}]


def functions(r):
    return [x for x in r["results"] if x.get("blocks")]


def body(c):
    ids = enum_values("cmmc/IR/Instruction.hpp", "InstructionID")
    attrs = enum_values("cmmc/IR/Function.hpp", "FunctionAttribute")
    anames = {v: k for k, v in attrs.items()}
    kinds = [k for k in ids if not k.endswith(("Begin", "End")) and k != "None"]
    for k in ALL:
        if k not in ids:
            raise Broken("instruction kind %s vanished" % k)
    src = ["IR/Instruction.cpp", "Transforms/Util/BlockUtil.cpp"]
    c.units |= set(src) | {"IR/Instruction.hpp"}

    # ---- category predicates
    bc = harness("classify", HARNESS)
    if bc is None:
        c.undec("categories", "category predicates not recognised")
    else:
        off = None

        def fn(name):
            r = run_tool("spec", {"modules": [bc], "root": "^vk_%s$" % name, "opaque": [], "queries": [{"id": "x"}], "cfg": True})
            return r["results"][0]
        f = fn("id")
        m = Machine(f, lambda *a: None)
        lds = [e for b in f["blocks"] for e in b["ev"] if "ld" in e]
        if len(lds) != 1:
            c.undec("categories", "instruction kind is not a field")
        else:
            m.run()
            p = m.val(P(lds[0]["ptr"]))
            off, size = p.off, lds[0]["size"]
            for name, want in CATS.items():
                f = fn(name)
                for k in kinds:
                    if k not in ALL:
                        c.undec("%s/%s" % (name, k), "instruction kind not in the reference table")
                        continue
                    try:
                        ts = Machine(f, lambda *a: None, mem0={("arg0", off): (ids[k], size)}).run()
                        got = {t.ret for t in ts}
                    except (Undecided, Trap) as e:
                        c.undec("%s/%s" % (name, k), str(e))
                        continue
                    if got <= {0, 1, -1} and len(got) == 1:
                        c.expect(bool(list(got)[0]) == (k in want), "%s/%s" % (name, k), "cmmc/IR/Instruction.hpp", "Instruction::%s() is %s for %s" % (name, bool(list(got)[0]), k))
                    else:
                        c.undec("%s/%s" % (name, k), "result %r" % got)

    # ---- removability, movability, usability as an operand
    bcs = bitcode(src)

    def call_for(k):
        def call(m, name, args, e):
            if name.endswith("getInstID"):
                return ids[k]
            return None
        return call

    def assumed(t, what, pol):
        return any(v == pol and what(str_(cond)) for cond, v in t.assume.items())

    def str_(x):
        return show(x, 4000) if not isinstance(x, tuple) else repr(x)

    def attr_known(t, a):
        """callee attribute known present (True), known absent (False), not consulted (None)"""
        for cond, v in t.assume.items():
            x, neg = cond, False
            while isinstance(x, tuple) and x and x[0] in ("not",):
                x, neg = x[1], not neg
            if isinstance(x, tuple) and x[0].startswith("icmp-") and 0 in x[1:]:
                neg ^= x[0].startswith("icmp-eq")
                x = [y for y in x[1:] if y != 0][0]
            if isinstance(x, tuple) and x[0] == "call" and unesc(x[1]).endswith("::hasAttr") and len(x) > 3 and x[3] == attrs[a] and re.search("lastOperand|getOperand|operands", repr(x[2])):
                return v != neg
        return None

    leaves = LEAVES + [r"dynamic_cast|report(Fatal|Unreachable)|DiagnosticsContext"]
    roots = {"isNoSideEffectExpr": 0, "isMovableExpr": 0, "canbeOperand": 0}
    for root in roots:
        lv = [{"re": x["re"].replace("|isNoSideEffectExpr", ""), "eff": x["eff"]} if isinstance(x, dict) else x for x in leaves]
        r = run_tool("spec", {"modules": bcs, "root": r"(^|::)%s$" % root, "opaque": lv, "queries": [{"id": "x"}], "cfg": True})
        fs = functions(r)
        if len(fs) != 1:
            c.undec(root, "function not found")
            continue
        f = fs[0]
        for k in kinds:
            if k not in ALL:
                continue
            for relaxed in ((0, 1) if root == "isMovableExpr" else (None,)):
                key = "%s/%s%s" % (root, k, "" if relaxed is None else "/speculative" if relaxed else "/same-path")
                mem0 = {("arg0", off): (ids[k], size)} if off is not None else {}
                args = [None] + ([relaxed] if relaxed is not None else [])
                try:
                    ts = Machine(f, call_for(k), args, mem0=mem0, keep=lambda k: True).run()
                except (Undecided, Trap) as e:
                    c.undec(key, str(e))
                    continue
                ts = [t for t in ts if t.end == "ret"]
                pos = [t for t in ts if t.ret != 0]
                for t in pos:
                    if sym(t.ret):
                        t.assume[t.ret] = True
                bad = None
                if root == "canbeOperand":
                    if k in TERM | {"Store"}:
                        bad = "can be used as an operand" if pos else None
                elif k in TERM | {"Store", "AtomicAdd"}:
                    bad = "has an effect but is treated as %s" % ("removable" if root[2] == "N" else "movable") if pos else None
                elif k == "Call":
                    for t in pos:
                        for a, need in (("NoSideEffect", True), ("Stateless", True), ("NoReturn", False)):
                            if attr_known(t, a) is not need:
                                bad = bad or "a call is treated as %s without establishing that the callee is%s %s" % ("removable" if root[2] == "N" else "movable", "" if need else " not", a)
                elif root == "isMovableExpr" and k in ("Load", "Phi", "Alloc"):
                    bad = "is treated as movable" if pos else None
                elif root == "isMovableExpr" and k in DIV and relaxed:
                    for t in pos:
                        lit = [(x, v) for x, v in t.assume.items() if "ZeroExtended" in repr(x) or "SignExtended" in repr(x)]
                        rv = t.ret
                        ok = False
                        for x, v in lit + ([(rv, True)] if sym(rv) else []):
                            ng = False
                            while isinstance(x, tuple) and x[0] == "not":
                                x, ng = x[1], not ng
                            if isinstance(x, tuple) and x[0].startswith("icmp-") and 0 in x[1:]:
                                z = (x[0].startswith("icmp-eq")) == (v != ng)
                                ok = ok or not z
                            # the divisor, not the dividend
                            if ok and "getOperand" in repr(x) and ", 1)" not in repr(x):
                                ok = False
                        if not ok:
                            bad = "may trap but is treated as safe to speculate without a non-zero divisor"
                if bad:
                    c.bad(key, "cmmc/Transforms/Util/BlockUtil.cpp", "%s: %s %s" % (root, k, bad))
                elif not ts:
                    c.undec(key, "no result")
                else:
                    c.ok({"classifier": root, "kind": k, "may be true": bool(pos)})
    c.cov["kinds"] = len(kinds)
    attrs_part(c, ids, attrs, anames, attr_known)
    dce_part(c, ids, attr_known)
    c.floor(300, "classifications")


OPQ = [{"re": "cmmc::Instruction::getInstID$|Instruction::(lastOperand|getOperand)$|::hasAttr|Value::is<|::mustBe|::attr$|isTerminator|Value::as<|Block::getTerminator", "eff": "none"},
       "::addAttr|dynamic_cast|unordered_set|deque|std::queue|remove_if|AnalysisPassManager::get|DisableValueRefCheckScope|Deque|IntrusiveList<cmmc::Instruction>::remove"]


def attrs_part(c, ids, attrs, anames, attr_known):
    """FunctionAttrInfer: a function that contains an instruction with an effect gets no attribute denying it"""
    f = "Transforms/Analysis/FunctionAttrInfer.cpp"
    bc = bitcode([f])
    c.units.add(f)
    r = run_tool("spec", {"modules": bc, "root": r"FunctionAttrInfer::run$", "root_full": "Manager&\\) const$", "opaque": OPQ, "queries": [{"id": "x"}], "cfg": True})
    fs = functions(r)
    if len(fs) != 1:
        c.undec("FunctionAttrInfer", "pass not found")
        return
    fn = fs[0]
    scans = [i for i, b in enumerate(fn["blocks"]) if any(e.get("call", "").endswith("Instruction::getInstID") for e in b["ev"])]
    DENY = {"NoMemoryRead": {"Load": "addr", "AtomicAdd": "addr", "Call": "attr"}, "NoMemoryWrite": {"Store": "addr", "AtomicAdd": "addr", "Call": "attr"},
            "NoSideEffect": {"Call": "attr"}, "NoRecurse": {"Call": "self"}}
    found = set()
    for b in scans:
        for k in ("Load", "Store", "AtomicAdd", "Call"):
            n = [0]

            def call(m, name, args, e):
                if name.endswith("Instruction::getInstID"):
                    n[0] += 1
                    if m.scan:
                        raise Stop("other")
                    m.scan = True
                    return ids[k]
                if name.endswith("::hasAttr") and not re.search("lastOperand|getOperand|operands", repr(args[0])):
                    raise Stop("other")  # the next attribute's inference begins
                if name.endswith("::addAttr"):
                    m.events.append((name, tuple(args), None, e["loc"]))
                    raise Stop("add")
                return None

            class M(Machine):
                def trace(self):
                    self.scan = False
                    return super().trace()
            m = M(fn, call, start=b, visits=2, keep=lambda k: True)
            m.alive = set(range(len(fn["blocks"])))
            try:
                ts = m.run()
            except (Undecided, Trap) as e:
                c.undec("FunctionAttrInfer/%s" % k, str(e))
                continue
            added = {anames.get(t.events[-1][1][1]) for t in ts if t.end == "add" and len(t.events[-1][1]) > 1}
            if len(added) != 1:
                continue
            a = added.pop()
            found.add(a)
            if a not in DENY or k not in DENY[a]:
                continue
            why = DENY[a][k]
            bad = None
            for t in ts:
                if t.end not in ("add", "left"):
                    continue
                ss = [(repr(x), v) for x, v in t.assume.items()]
                addr_ok = any("mustBe" in s and lit_true(x, v) for (x, v), (s, _) in zip(t.assume.items(), ss))
                self_eq = any(x[0].startswith("icmp-eq") and v and ("arg1" in repr(x) or "arg" in repr(x)) and "lastOperand" in repr(x) for x, v in t.assume.items())
                self_ne = any(x[0].startswith("icmp-eq") and not v and "arg" in repr(x) and "lastOperand" in repr(x) for x, v in t.assume.items())
                if why == "addr" and not addr_ok:
                    bad = "%s is inferred although the function contains a %s whose address is not known to be on its own stack" % (a, k)
                if why == "self" and not self_ne:
                    bad = "NoRecurse is inferred although a call's callee was not compared with the function"
                if why == "attr" and not self_eq and attr_known(t, a) is not True:
                    notfn = any("is<" in repr(x) and not lit_true(x, v) for x, v in t.assume.items()) or any("dynamic_cast" in repr(x) or "@vtable" in repr(x) for x in t.assume)
                    if a == "NoMemoryRead" and notfn:
                        continue  # an indirect call: only read together with NoSideEffect, which indirect calls do forbid
                    bad = "%s is inferred although a callee is not known to have it" % a
            if bad:
                c.bad("FunctionAttrInfer/%s/%s" % (a, k), f, bad)
            else:
                c.ok({"attribute": a, "kind": k, "paths": len(ts)})
    for a in DENY:
        if a not in found:
            c.undec("FunctionAttrInfer/%s" % a, "inference not recognised")


def lit_true(x, v):
    while isinstance(x, tuple) and x and x[0] == "not":
        x, v = x[1], not v
    if isinstance(x, tuple) and x[0].startswith("icmp-") and 0 in x[1:]:
        if x[0].startswith("icmp-eq"):
            v = not v
    return v


def dce_part(c, ids, attr_known):
    f = "Transforms/DCE/NoSideEffectEliminate.cpp"
    bc = bitcode([f])
    c.units.add(f)
    r = run_tool("spec", {"modules": bc, "root": r"NoSideEffectEliminate::run$", "root_full": "Manager&\\) const$", "opaque": OPQ, "queries": [{"id": "x"}], "cfg": True})
    fs = functions(r)
    if len(fs) != 1:
        c.undec("NoSideEffectEliminate", "pass not found")
        return
    fn = fs[0]
    scans = [i for i, b in enumerate(fn["blocks"]) if any(e.get("call", "").endswith("Instruction::getInstID") for e in b["ev"])]
    if len(scans) != 1:
        c.undec("NoSideEffectEliminate", "scan not recognised")
        return
    for k in sorted(TERM | {"Store", "AtomicAdd", "Call"}):
        def call(m, name, args, e):
            if name.endswith("Instruction::getInstID"):
                return ids[k]
            if name.endswith("isTerminator"):
                return int(k in TERM)
            if re.search("::(insert|emplace)$", name):
                m.events.append((name, tuple(args), None, e["loc"]))
                raise Stop("kept")
            return None
        m = Machine(fn, call, start=scans[0], visits=1, keep=lambda k: True)
        m.alive = set(range(len(fn["blocks"])))
        try:
            ts = m.run()
        except (Undecided, Trap) as e:
            c.undec("NoSideEffectEliminate/%s" % k, str(e))
            continue
        bad = False
        for t in ts:
            if t.end in ("kept", "noreturn", "unreachable"):
                continue
            if k == "Call" and attr_known(t, "NoSideEffect") is True:
                continue
            bad = True
        if not ts:
            c.undec("NoSideEffectEliminate/%s" % k, "no path")
        elif bad:
            c.bad("NoSideEffectEliminate/%s" % k, f, "a %s whose result is unused is removed although it may have an effect" % k)
        else:
            c.ok({"pass": "NoSideEffectEliminate", "kind": k})


main("C09", "other", "conditional constant propagation and abstract interpretation of every classifier for each instruction kind of the enumeration; a kind with an effect may only be "
     "classified removable, movable or speculatable under established callee attributes or a non-zero divisor, and attribute inference and dead-code elimination honour the same kinds", body)
