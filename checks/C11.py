"""C11: copies of an instruction behave like the original; interchangeable means equal in every attribute."""
from _common import *
from terms import Undecided, Trap
from absint import *
from heap import *

F = "IR/Instruction.cpp"
OPQ = OPAQUE + [{"re": r"GetElementPtrInst::getValueType$|Type::get$|::get(Pointee|RetType|Boolean)$", "eff": "none"}]


def vt(cls):
    return Ptr("@vtable\x01for\x01cmmc::%s" % cls, 16)


def body(c):
    L = IRLayout()
    ids = enum_values("cmmc/IR/Instruction.hpp", "InstructionID")
    bc = bitcode([F])
    c.units.add(F)

    def o(*a):
        return ("obj",) + a
    # class -> list of (variant, id, number of operands, own attributes, type must be the original's own)
    G = ("obj", "id")   # any id of the class
    sw = lambda h, m, b: h.setmap(m, Ptr(b, L.se), "map", ((3, o("e1")), (7, o("e2"))))
    ph = lambda h, m, b: h.setmap(m, Ptr(b, L.pi), "unordered_map", ((o("b1"), Ptr(("obj", "ref", b, 0))), (o("b2"), Ptr(("obj", "ref", b, 1)))))
    C = {
        "BinaryInst": [("", G, 2, {}, False)],
        "CompareInst": [("", G, 2, {L.cmp: (o("cmp"), 4)}, False)],
        "UnaryInst": [("", G, 1, {}, False)],
        "CastInst": [("", G, 1, {}, True)],
        "LoadInst": [("", ids["Load"], 1, {}, False)],
        "StoreInst": [("", ids["Store"], 2, {}, False)],
        "BranchInst": [("", ids["Branch"], 0, {L.bt: (o("bb1"), 8), L.bf: (0, 8)}, False),
                       ("conditional", ids["ConditionalBranch"], 1, {L.bt: (o("bb1"), 8), L.bf: (o("bb2"), 8), L.bp: (o("prob"), 8)}, False)],
        "ReturnInst": [("void", ids["Ret"], 0, {}, False), ("value", ids["Ret"], 1, {}, False)],
        "UnreachableInst": [("", ids["Unreachable"], 0, {}, False)],
        "SwitchInst": [("", ids["Switch"], 1, {L.sd: (o("bb1"), 8), "map": sw}, False)],
        "FunctionCallInst": [("%d args" % n, ids["Call"], n + 1, {}, False) for n in range(4)],
        "SelectInst": [("", ids["Select"], 3, {}, False)],
        "StackAllocInst": [("", ids["Alloc"], 0, {L.al: (o("align"), 8)}, "pointee")],
        "FMAInst": [("", ids["FFma"], 3, {}, False)],
        "GetElementPtrInst": [("%d indices" % n, ids["GetElementPtr"], n + 1, {}, False) for n in range(1, 4)],
        "PtrAddInst": [("", ids["PtrAdd"], 2, {}, True)],
        "PtrCastInst": [("", ids["PtrCast"], 1, {}, True)],
        "PtrToIntInst": [("", ids["PtrToInt"], 1, {}, True)],
        "IntToPtrInst": [("", ids["IntToPtr"], 1, {}, True)],
        "PhiInst": [("", ids["Phi"], 2, {"map": ph}, True)],
        "FunctionPtrInst": [("", ids["FunctionPtr"], 1, {}, True)],
        "AtomicAddInst": [("", ids["AtomicAdd"], 2, {}, False)],
    }
    attr = {L.cmp: "condition"}
    # every class that overrides clone is known here
    import subprocess as sp
    src = open(REPO + "/cmmc/IR/Instruction.hpp").read()
    for cls in re.findall(r"class (\w+)\s+final\s*:\s*public Instruction\b", src):
        if cls not in C:
            c.undec(cls, "instruction class without a reference description")

    class H(Heap):
        pass
    h = H()
    VAL = "\x01for\x01cmmc::"

    def decide(m, v):
        if v[0].startswith("icmp-eq"):
            for x in v[1:]:
                if isinstance(x, Ptr) and isinstance(x.base, str) and "vtable" in x.base:
                    return True
        return None

    def setup(base, cls, var, tag=""):
        """memory of one instruction"""
        _, id_, n, own, _ = var
        cells = L.inst(base, id_, o("type" + tag), [o("op", i) for i in range(n)])
        cells[(base, 0)] = (vt(cls), 8)
        for k, v in own.items():
            if k != "map":
                cells[(base, k)] = v
        if "map" in own:
            class M:
                mem = cells
            own["map"](h, M, base)
        for i in range(n):
            cells[(o("op", i), L.type)] = (o("opty", i), 8)
        return cells

    def leaves(t, out):
        if isinstance(t, tuple):
            if t[0] == "obj":
                out.add(t)
            else:
                for x in t:
                    leaves(x, out)
        return out

    # ---- clone
    n = 0
    for cls, variants in C.items():
        r = run_tool("spec", {"modules": bc, "root": r"cmmc::%s::clone$" % cls, "opaque": OPQ, "queries": [{"id": "x"}], "cfg": True})
        fns = [x for x in r["results"] if x.get("blocks")]
        if len(fns) != 1:
            c.undec("%s/clone" % cls, "clone not found")
            continue
        for var in variants:
            name, id_, nop, own, owntype = var
            key = "%s/clone%s" % (cls, "/" + name if name else "")
            n += 1

            def call(m, nm, args, e):
                if nm.endswith("TrackableValue::TrackableValue"):
                    m.store(Ptr(args[0].base, args[0].off + L.type), args[1], 8)
                    return 0
                if nm == "indirect" or nm.endswith("isSame"):
                    return None
                return h.call(m, nm, args, e)
            m = Machine(fns[0], call, [Ptr("I")], decide=decide, visits=12, keep=lambda k: True, mem0=setup("I", cls, var), max_traces=300, objects=("I", "J"))
            try:
                ts = [t for t in m.run() if t.end == "ret"]
            except (Undecided, Trap) as e:
                c.undec(key, str(e))
                continue
            if not ts:
                c.undec(key, "no path returns")
                continue
            state = "ok"
            for t in ts:
                m.mem = t.mem
                m.epoch = 0
                ret = t.ret
                if not isinstance(ret, Ptr):
                    state = "returns %r" % (ret,)
                    break
                if ret.base == "I":
                    c.bad(key + "/same", "cmmc/" + F, "%s: clone returns the original itself" % cls)
                    state = "bad"
                    break
                b = ret.base
                ops = L.operands(h, m, b)
                get = lambda off, size: m.mem.get((b, off), (("unset",), 0))[0]
                bads = []
                if ops is None:
                    state = "operands of the copy not recognised"
                    break
                want = [o("op", i) for i in range(nop)]
                if any(not (isinstance(x, tuple) and x and x[0] == "obj") for x in ops):
                    state = "operands of the copy: %r" % (ops,)
                    break
                if ops != want:
                    bads.append(("operands", "its operands are %s instead of %s" % ([x[2] for x in ops], [x[2] for x in want])))
                if get(L.id, 4) != id_:
                    bads.append(("id", "its operation is %r, not the original's" % (get(L.id, 4),)))
                ty = get(L.type, 8)
                lv = leaves(ty, set())
                if owntype is True and ty != o("type"):
                    bads.append(("type", "its type is not the original's"))
                elif owntype == "pointee" and not (ty == o("type") or o("type") in lv and isinstance(ty, tuple) and "PointerType::get" in str(ty)):
                    bads.append(("type", "its type is not the original's"))
                elif not owntype and any(x[1] not in ("type", "opty") for x in lv if len(x) > 1 and isinstance(x[1], str)) and cls not in ("GetElementPtrInst",):
                    state = "type %r" % (ty,)
                    break
                if not owntype and ty != o("type") and {x for x in lv if x[1] == "opty"} - {o("opty", i) for i in {"SelectInst": (1, 2), "FunctionCallInst": (nop - 1,)}.get(cls, range(nop))}:
                    bads.append(("type", "its type is derived from the wrong operand"))
                for k, v in own.items():
                    if k == "map":
                        kind, off = ("map", L.se) if cls == "SwitchInst" else ("unordered_map", L.pi)
                        mine = h.getmap(m, Ptr("I", off), kind)
                        cp = h.getmap(m, Ptr(b, off), kind)
                        if cp is None:
                            state = "edges of the copy not recognised"
                            break
                        if cls == "PhiInst":
                            deref = lambda l: [(a, m.load(Ptr(x.base, L.refval), 8, "ptr") if isinstance(x, Ptr) else None) for a, x in l]
                            mine2, cp2 = deref(mine), deref(cp)
                            # the copy's edges refer to the copy's own operand slots
                            if any(isinstance(x, Ptr) and x.base == y.base for (_, x), (_, y) in zip(mine, cp)):
                                bads.append(("incomings", "its incoming values share the operand slots of the original"))
                            mine, cp = mine2, cp2
                        if sorted(map(repr, mine)) != sorted(map(repr, cp)):
                            bads.append(("edges", "its edges differ from the original's"))
                    elif get(k, v[1]) != v[0]:
                        nmk = {L.cmp: "condition" if cls == "CompareInst" else "", L.bt: "true target", L.bf: "false target", L.bp: "probability"}
                        what = {"CompareInst": "condition", "StackAllocInst": "alignment", "SwitchInst": "default target"}.get(cls) or {L.bt: "true target", L.bf: "false target", L.bp: "probability"}[k]
                        bads.append((what, "its %s is not the original's" % what))
                if state != "ok":
                    break
                for k, msg in bads:
                    c.bad(key + "/" + k, "cmmc/" + F, "copy of %s%s: %s" % (cls, " (%s)" % name if name else "", msg))
                    state = "bad"
                if bads:
                    break
            if state == "ok":
                c.ok({"clone": key, "operands": nop, "attributes": len(own)})
            elif state != "bad":
                c.undec(key, state[:200])
    # ---- isEqual
    r = run_tool("spec", {"modules": bc, "root": r"Inst(ruction)?::isEqual$", "opaque": OPQ, "queries": [{"id": "x"}], "cfg": True})
    fns = {x.get("fn") or x.get("root") or x.get("name"): x for x in r["results"] if x.get("blocks")}
    byname = {}
    for x in r["results"]:
        s = str(x.get("root", ""))
        for cls in list(C) + ["Instruction"]:
            if re.search(r"cmmc::%s::isEqual\b" % cls, s):
                byname[cls] = x
    if "Instruction" not in byname:
        raise Broken("Instruction::isEqual not found")
    for cls, variants in C.items():
        fn = byname.get(cls, byname["Instruction"])
        for var in variants[:2]:
            name, id_, nop, own, _ = var
            idn = 5 if id_ == G else id_

            def build(base, change):
                v = list(var)
                v[1] = idn
                v[3] = dict(own)
                cells = setup(base, cls, tuple(v))
                change(cells, base)
                return cells
            cases = [("same", lambda m, b: None, True), ("type", lambda m, b: m.__setitem__((b, L.type), (o("type2"), 8)), False)]
            if id_ == G:
                cases.append(("operation", lambda m, b: m.__setitem__((b, L.id), (idn + 1, 4)), False))
            if cls == "BinaryInst":
                for a in ids:
                    for b_ in ids:
                        def opair(m, b, a=a, b_=b_):
                            m[(b, L.id)] = (ids[b_], 4)
                            m[("I", L.id)] = (ids[a], 4)
                        cases.append(("operation %s/%s" % (a, b_), opair, a == b_))
            for k, v in own.items():
                if k == "map":
                    kind, off = ("map", L.se) if cls == "SwitchInst" else ("unordered_map", L.pi)

                    def remap(lst, kind=kind, off=off):
                        def f(m, b):
                            class M:
                                mem = m
                            h.setmap(M, Ptr(b, off), kind, lst(b))
                        return f
                    if cls == "SwitchInst":
                        cases += [("edge target", remap(lambda b: ((3, o("e1")), (7, o("e9")))), False), ("edge key", remap(lambda b: ((3, o("e1")), (8, o("e2")))), False),
                                  ("edge count", remap(lambda b: ((3, o("e1")), (7, o("e2")), (9, o("e3")))), False), ("edge count/fewer", remap(lambda b: ((3, o("e1")),)), False)]
                    else:
                        r1 = lambda b: Ptr(("obj", "ref", b, 1))
                        cases += [("incoming block", remap(lambda b: ((o("b1"), Ptr(("obj", "ref", b, 0))), (o("b9"), r1(b)))), False),
                                  ("incoming value", lambda m, b: m.__setitem__((("obj", "ref", b, 1), L.refval), (o("other"), 8)), False),
                                  ("incoming order", remap(lambda b: ((o("b1"), r1(b)), (o("b2"), Ptr(("obj", "ref", b, 0))))), False)]
                elif k in (L.bp,) and cls == "BranchInst" or cls == "StackAllocInst":
                    pass  # a hint; allocations are distinct objects and never merged (C09)
                elif v[0] != 0:
                    what = {"CompareInst": "condition", "SwitchInst": "default target"}.get(cls) or {L.bt: "true target", L.bf: "false target"}[k]
                    cases.append((what, lambda m, b, k=k, v=v: m.__setitem__((b, k), (o("changed"), v[1])), False))
            if cls == "CompareInst":
                k, v = next((k, v) for k, v in own.items() if k != "map")
                cmps = enum_values("cmmc/IR/Instruction.hpp", "CompareOp")
                for kind, idn2 in (("ICmp", ids["ICmp"]), ("FCmp", ids["FCmp"])):
                    names = sorted(x for x in cmps if x.startswith(kind))
                    for a in names:
                        for b_ in names:
                            def pair(m, b, a=a, b_=b_, idn2=idn2, k=k, v=v):
                                m[(b, L.id)] = (idn2, 4)
                                m[(b, k)] = (cmps[b_], v[1])
                                for m2 in (m,):
                                    m2[("I", L.id)] = (idn2, 4)
                                    m2[("I", k)] = (cmps[a], v[1])
                            cases.append(("condition %s/%s" % (a, b_), pair, a == b_))
            for what, change, want in cases:
                key = "%s/isEqual%s/%s" % (cls, "/" + name if name else "", what)
                n += 1

                def call(m, nm, args, e):
                    if nm.endswith("Type::isSame") or nm == "indirect" and len(args) == 3:
                        return int(args[-1] == args[-2])
                    return h.call(m, nm, args, e)
                mem0 = build("I", lambda m, b: None)
                mem0.update(build("J", change))
                m = Machine(fn, call, [Ptr("I"), Ptr("J")], decide=lambda mm, v: decide(mm, v) if decide(mm, v) is not None else (distinct(v)), visits=12, keep=lambda k: True, mem0=mem0, max_traces=300, objects=("I", "J"))
                try:
                    rets = {t.ret if not sym(t.ret) else ("sym",) for t in m.run() if t.end == "ret"}
                except (Undecided, Trap) as e:
                    c.undec(key, str(e))
                    continue
                if len(rets) != 1 or ("sym",) in rets:
                    if os.environ.get("DBG"):
                        for x in m.run():
                            print(key, x.ret, {str(k)[:150]: v for k, v in x.assume.items()})
                    c.undec(key, "result %r" % (rets,))
                elif bool(rets.pop() & 1) == want or want:
                    c.ok({"equality": key, "interchangeable": want})
                else:
                    c.bad(key, "cmmc/" + F, "%s: two instructions that differ in their %s are treated as interchangeable" % (cls, what))
    c.cov["instances"] = n
    c.floor(60, "copies and comparisons")


def distinct(v):
    """distinct objects of the model are distinct values"""
    if v[0].startswith("icmp-eq") and len(v) == 3 and all(isinstance(x, tuple) and x and x[0] == "obj" for x in v[1:]):
        return v[1] == v[2]
    return None


main("C11", "other", "abstract interpretation of every clone() and isEqual() over an object of known shape with symbolic attributes: operation, type, operands in order and every own attribute of the copy are the "
     "original's; two objects that differ in one attribute are not equal", body)
