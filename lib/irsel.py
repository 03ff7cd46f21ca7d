"""Rewrites of IR expressions by a combine pass. The pass's reducer (a function Instruction* -> Value*) is
interpreted on the LLVM IR of /repo over instruction trees that are grown by demand: whenever the reducer asks
for the class, the operation or the identity of a value the tree does not determine, the tree is refined that way.
Integer constants and comparison operators of the tree stay symbolic along a path (their concrete values only
select it), so that the rewritten expression is known for every constant that satisfies the path's conditions;
original and rewritten expression are then compared over a grid of constants and leaf values."""
import itertools
import math
import multiprocessing
import random
import time
from vlib import *
import terms
from terms import Eval, Undecided, Trap, sgn, uns, P
from absint import Machine, Ptr, Stop, Lit, sym
import absint
import heap
import irtypes
from semantics import INTBIN, INTUN, FPBIN, FPUN, ICMP, FCMP, CASTS, fdiv, tdiv

BINARY = list(INTBIN) + list(FPBIN)
UNARY = list(INTUN) + list(FPUN)
CLASS = {**{k: "BinaryInst" for k in BINARY}, **{k: "UnaryInst" for k in UNARY}, **{k: "CastInst" for k in CASTS},
         "ICmp": "CompareInst", "FCmp": "CompareInst", "Select": "SelectInst", "FFma": "FMAInst", "Load": "LoadInst"}
ARITY = {"BinaryInst": 2, "UnaryInst": 1, "CastInst": 1, "CompareInst": 2, "SelectInst": 3, "FMAInst": 3}
OPAQUE = [r"IRBuilder::(makeOp|getTrue|getFalse|getZeroIndex|getIndexType)", "cmmc::make<", "ConstantInteger::get(True|False)?$", "hasExactlyOneUse", "isUsed$", "__dynamic_cast",
          r"report(Fatal|Unreachable|NotImplemented)", r"^std::(__cxx11::)?deque<", "UserList", "isSame$", "IntegerType::get(Boolean)?$", "FloatingPointType::get$", "ValueRef::resetValue", "ValueRefHandle::~"]
BITSOF = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
SIGNEDUSE = ("SDiv", "SRem", "AShr", "SExt", "S2F", "SMin", "SMax", "Abs", "ICmp", "UDiv", "URem", "LShr", "U2F", "ZExt")
isint = lambda t: t[0] == "i"


class CInt(int):
    """an integer that selected the path, with the term it stands for"""
    def __new__(cls, v, term):
        o = int.__new__(cls, v)
        o.term = term
        return o


class OpTag(int):
    """operation of a value of the tree"""

    def __new__(cls, v, node):
        o = int.__new__(cls, v)
        o.node = node
        return o


class VPtr(Ptr):
    """virtual table of a value of the tree"""

    def __new__(cls, base, off, node):
        o = tuple.__new__(cls, ("ptr", base, off))
        o.node = node
        return o


def term(v):
    return v.term if isinstance(v, CInt) else Lit(int(v)) if isinstance(v, int) else Lit(v)


def tvars(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t[0] == "var":
            out.add(t[1])
        else:
            for x in t[1:]:
                tvars(x, out)
    return out


def tev(t, env):
    if isinstance(t, Lit):
        return t.v
    if t[0] == "var":
        return env[t[1]]
    if t[0].startswith("extractvalue."):
        return tev(t[1], env)[1 + int(t[0][13:])]
    if t[0] == "intrin":
        return Machine.intrin(t[1], [tev(x, env) for x in t[2:]])
    return Eval(lambda a, b: None).ev((t[0],) + tuple(Lit(tev(x, env)) for x in t[1:]))


def sameterm(a, b):
    if isinstance(a, Lit) or isinstance(b, Lit):
        return isinstance(a, Lit) and isinstance(b, Lit) and a.v == b.v
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(sameterm(x, y) for x, y in zip(a, b))
    return a == b


class Cond:
    """a term over the tree's constants, evaluated once per assignment of its variables"""

    def __init__(self, t):
        self.t, self.vars, self.memo = t, tuple(sorted(tvars(t))), {}

    def __call__(self, env):
        k = tuple(env[v] for v in self.vars)
        try:
            return self.memo[k]
        except KeyError:
            try:
                r = tev(self.t, env)
            except (Trap, Undecided):
                r = None
            self.memo[k] = r
            return r


class M(Machine):
    """interpreter that records what the reducer asks about the tree"""

    def reset(self):
        self.asks, self.path, self.stackid = [], [], ()
        self.cur = None

    def enter(self, fn, args):
        old = self.stackid
        self.stackid = old + (self.cur,)
        try:
            return super().enter(fn, args)
        finally:
            self.stackid = old

    def ask(self, what):
        self.asks.append((hash((self.stackid, self.cur)), what))

    def op(self, h, vs):
        if len(vs) == 2 and h.startswith("icmp-"):
            a, b = vs
            for x, y in ((a, b), (b, a)):
                if isinstance(x, OpTag):
                    if not isinstance(y, OpTag):
                        self.ask(("op", x.node, int(y) if isinstance(y, int) else None, h[5:].split(":")[0]))
                elif isinstance(x, VPtr) and isinstance(y, Ptr):
                    self.ask(("cls", x.node, y.base))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base != b.base and not a.off and not b.off and nodeof(a) is not None and nodeof(b) is not None:
                self.ask(("same",) + tuple(sorted((nodeof(a), nodeof(b)))))
        if any(isinstance(v, CInt) for v in vs):
            r = super().op(h, vs)
            if h.startswith("select") and isinstance(vs[0], CInt) and not (isinstance(vs[1], int) and isinstance(vs[2], int) and type(vs[1]) in (int, CInt, bool) and type(vs[2]) in (int, CInt, bool)):
                self.truth(vs[0])
                return r
            if isinstance(r, int):
                return CInt(r, (h,) + tuple(term(v) for v in vs))
            return r
        if len(vs) == 1 and isinstance(vs[0], OpTag) and h.startswith(("zext", "sext", "trunc")):
            return OpTag(super().op(h, vs), vs[0].node)
        if len(vs) == 2 and isinstance(vs[0], OpTag) and h.startswith(("add", "sub")) and isinstance(vs[1], int):
            # range checks on the operation
            self.ask(("range", vs[0].node))
        return super().op(h, vs)

    def intrin(self, name, vs):
        r = Machine.intrin(name, vs)
        if isinstance(r, tuple) and r[0] == "agg" and any(isinstance(v, CInt) for v in vs):
            return ("agg",) + tuple(CInt(x, ("extractvalue.%d" % k, ("intrin", name) + tuple(term(v) for v in vs))) for k, x in enumerate(r[1:]))
        if isinstance(r, int) and any(isinstance(v, CInt) for v in vs):
            return CInt(r, ("intrin", name) + tuple(term(v) for v in vs))
        return r

    def truth(self, v):
        if isinstance(v, CInt):
            self.path.append((v.term, bool(v)))
            return bool(v)
        return super().truth(v)

    def pin(self, v):
        if isinstance(v, CInt):
            self.path.append((("icmp-eq:64", v.term, Lit(int(v))), True))
            return int(v)
        return v

    def load(self, p, size, ty):
        v = super().load(p, size, ty)
        e = self.mem.get((p.base, p.off)) if isinstance(p, Ptr) else None
        if e is not None and isinstance(e[0], CInt) and v is not e[0]:
            self.pin(e[0])
        return v

    def val(self, t):
        if not isinstance(t, str) and t[0] == "gep":
            for m in t[3:]:
                self.pin(super().val(m[2]))
        return super().val(t)

    def loop(self, blocks, start):
        # as Machine.loop, with the position and switch decisions recorded
        count = {}
        b, prev = start, None
        while True:
            blk = blocks[b]
            count[b] = count.get(b, 0) + 1
            self.steps += 1
            if count[b] > self.visits or self.steps > self.max_steps:
                raise absint.Truncated()
            self.cur = (id(blocks), b)
            if blk["phi"]:
                new = {}
                for p in blk["phi"]:
                    src = p["in"].get(str(prev))
                    new[p["id"]] = self.val(P(src)) if src is not None else ("phi", p["id"])
                self.env.update(new)
            for e in blk["ev"]:
                self.event(e, b, count[b])
            self.cur = (id(blocks), b)
            if "ret" in blk:
                return "ret", self.val(P(blk["ret"])) if blk["ret"] != "void" else None
            if "stop" in blk:
                return "unreachable", None
            if "switch" in blk:
                v = self.val(P(blk["switch"]))
                if isinstance(v, OpTag):
                    for k in blk["cases"]:
                        self.ask(("op", v.node, int(k), "eq"))
                if sym(v):
                    raise Undecided("switch on unknown value %s" % str(v)[:150])
                k = str(int(v))
                nxt = blk["cases"].get(k)
                if isinstance(v, CInt):
                    if nxt is not None:
                        self.path.append((("icmp-eq:64", v.term, Lit(int(v))), True))
                    else:
                        for c in blk["cases"]:
                            self.path.append((("icmp-eq:64", v.term, Lit(int(c))), False))
                prev, b = b, blk["default"] if nxt is None else nxt
            elif "cond" in blk:
                c = self.truth(self.val(P(blk["cond"])))
                prev, b = b, blk["succ"][0 if c else 1]
            else:
                prev, b = b, blk["succ"][0]


def nodeof(p):
    return p.base[2] if isinstance(p.base, tuple) and p.base[:2] == ("obj", "n") else None


class Node:
    """leaf | const (symbolic integer) | fconst | inst | gen (instruction of a class whose operation is open)"""
    __slots__ = ("kind", "type", "op", "kids", "cls", "val")

    def __init__(self, kind, type, op=None, kids=(), cls=None, val=None):
        self.kind, self.type, self.op, self.kids, self.cls, self.val = kind, type, op, tuple(kids), cls, val

    def key(self):
        return (self.kind, self.type, self.op, self.kids, self.cls, self.val)


class Shape:
    def __init__(self, nodes, root=0, asked=frozenset()):
        self.nodes, self.root, self.asked = nodes, root, asked

    def text(self, i=None, names=None):
        names = {} if names is None else names
        i = self.root if i is None else i
        n = self.nodes[i]
        if n.kind == "leaf":
            return "%s:%s" % (names.setdefault(i, "xyzuvwpqrst"[len(names)] if len(names) < 11 else "x%d" % i), n.type)
        if n.kind == "const":
            return "c%d:%s" % (sorted(k for k in self.nodes if self.nodes[k].kind == "const").index(i), n.type)
        if n.kind == "fconst":
            return "%r:%s" % (n.val, n.type)
        return "%s%s(%s)" % (n.op or n.cls, "." + n.type if n.kind == "inst" and n.op in CASTS else "", ", ".join(self.text(k, names) for k in n.kids))

    def prune(self):
        live, work = set(), [self.root]
        while work:
            i = work.pop()
            if i not in live:
                live.add(i)
                work += self.nodes[i].kids
        self.nodes = {i: n for i, n in self.nodes.items() if i in live}
        return self

    def key(self):
        order, ids = [], {}

        def walk(i):
            if i in ids:
                return ids[i]
            ids[i] = len(ids)
            n = self.nodes[i]
            me = ids[i]
            ks = tuple(walk(k) for k in n.kids)
            order.append((me, n.kind, n.type, n.op, ks, n.cls, n.val))
            return me
        walk(self.root)
        return tuple(order)

    def types_ok(self):
        return True


class Env:
    """layout and residual program shared by all trees of a pass"""

    def __init__(self, files, root, types=("i32", "i1", "i64", "f32"), extra=(), opaque=(), ropaque=None, raw=()):
        self.L = heap.IRLayout()
        self.T = irtypes.Types()
        self.ids = enum_values("cmmc/IR/Instruction.hpp", "InstructionID", "cmmc::")
        self.idname = {v: k for k, v in self.ids.items()}
        self.cmps = enum_values("cmmc/IR/Instruction.hpp", "CompareOp", "cmmc::")
        self.cmpname = {v: k for k, v in self.cmps.items()}
        base = bitcode(["IR/ConstantValue.cpp", "IR/Instruction.cpp", "IR/Type.cpp", "IR/Value.cpp"])
        mods = bitcode(list(files) + list(extra)) + list(raw)
        rr = r"^cmmc::Constant(Integer|FloatingPoint)::(getSignExtended|getZeroExtended|getStorage|getValue|isEqual)$|^cmmc::(Value|Constant[A-Za-z]*|[A-Za-z]*Inst|Instruction|Function|Global[A-Za-z]*|FunctionArgument|UndefinedValue)::(rank|isUndefined|constantRank|getBlock)$|" + irtypes.TYPE_ROOTS
        q = {"opaque": OPAQUE + list(opaque), "queries": [{"id": "x"}], "cfg": True}
        r0 = run_tool("spec", dict(q, modules=base, root=rr))
        r = run_tool("spec", dict(q, modules=mods, root=root, **({"opaque": list(ropaque), "globals": "."} if ropaque is not None else {})))
        self.funcs = irtypes.functions(r0)
        self.funcs.update(irtypes.functions(r))
        for _ in range(4 if ropaque is not None else 0):
            # functions that call themselves are not merged into their callers
            miss = {e["call"] for f in self.funcs.values() for b in f["blocks"] for e in b["ev"] if "call" in e} - set(self.funcs)
            miss = [x for x in miss if ("cmmc" in x and not any(re.search(o, x) for o in ropaque))]
            if not miss:
                break
            rq = "|".join("^%s$" % re.sub(r"([^\w:])", r"\\\1", x) for x in sorted(miss))
            try:
                rx = run_tool("spec", dict(q, modules=mods, root=rq, opaque=list(ropaque), globals="."))
            except Broken:
                break
            new = irtypes.functions(rx)
            r["results"] += rx["results"]
            if not set(new) - set(self.funcs):
                break
            self.funcs.update({k: v for k, v in new.items() if k not in self.funcs})
        mods = mods + [b for b in base if b not in mods]
        rx = re.compile(root)
        roots = [n for n in self.funcs if rx.search(n)]
        self.roots = roots
        self.table = irtypes.vtables(mods)
        self.table.update(absint.const_table(r0.get("globals", {})))
        for x in [r] + r["results"]:
            self.table.update(absint.const_table(x.get("globals") or {}))
        self.off = {}
        for fn, ty, k in (("cmmc::ConstantInteger::getStorage", "i64", "int"), ("cmmc::ConstantFloatingPoint::getValue", "double", "fp")):
            if fn not in self.funcs:
                raise Broken("constant interface not recognised")
            m = Machine(self.funcs[fn], None, [Ptr("I")], funcs=self.funcs)
            try:
                ts = m.run()
            except Undecided:
                ts = []
            o = {x[2] for t in ts for x in irtypes.leaves([t.ret]) if x[1] == "I" and x[3] == ty}
            if len(o) != 1:
                raise Broken("constant layout not recognised")
            self.off[k] = o.pop()
        self.tmem = {}
        for n in ("i1", "i8", "i16", "i32", "i64", "f32", "f64", "ptr", "void"):
            self.tmem.update(self.T.obj(n)[1])
        self.ty = {n: Ptr(("obj", "ty", n)) for n in ("i1", "i8", "i16", "i32", "i64", "f32", "f64", "ptr", "void")}

    def vt(self, cls):
        return "@vtable\x01for\x01cmmc::" + cls

    # ---- memory image of a tree
    def cells(self, shape, cvals):
        m = {}
        for i, n in shape.nodes.items():
            b = ("obj", "n", i)
            if n.kind == "leaf":
                m.update(self.L.inst(b, OpTag(self.ids["Load"], i), self.ty[n.type], [Ptr(("obj", "addr", i))]))
                m[(b, 0)] = (VPtr(self.vt("LoadInst"), 16, i), 8)
            elif n.kind == "const":
                m[(b, 0)] = (VPtr(self.vt("ConstantInteger"), 16, i), 8)
                m[(b, self.L.type)] = (self.ty[n.type], 8)
                m[(b, self.off["int"])] = (CInt(cvals[i], ("var", i)), 8)
            elif n.kind == "fconst":
                m[(b, 0)] = (VPtr(self.vt("ConstantFloatingPoint"), 16, i), 8)
                m[(b, self.L.type)] = (self.ty[n.type], 8)
                m[(b, self.off["fp"])] = (n.val, 8)
            else:
                oid = self.ids[n.op] if n.op else 9999
                m.update(self.L.inst(b, OpTag(oid, i), self.ty[n.type], [Ptr(("obj", "n", k)) for k in n.kids]))
                m[(b, 0)] = (VPtr(self.vt(CLASS[n.op] if n.op else n.cls), 16, i), 8)
                if (n.op in ("ICmp", "FCmp")):
                    m[(b, self.L.cmp)] = (CInt(cvals[i], ("var", i)), 4)
                elif n.cls == "CompareInst":
                    m[(b, self.L.cmp)] = (0, 4)
        return m


class Model:
    """meaning of the opaque calls"""

    def __init__(self, env, native=1, users="other"):
        self.env, self.native, self.users = env, native, users
        self.h = heap.Heap()
        self.made = 0

    def new(self, m, cells):
        self.made += 1
        b = ("obj", "new", self.made)
        return b

    def const(self, m, ty, v):
        E = self.env
        t = tname(ty)
        if t is None:
            raise Stop("type of a constant")
        if not isinstance(v, int):
            raise Stop("value of a constant")
        if t == "i1":
            v = CInt(int(v) & 1, ("and:64", v.term, Lit(1))) if isinstance(v, CInt) else v & 1
        b = ("obj", "new", len(m.events), self.made)
        self.made += 1
        m.mem[(b, 0)] = (Ptr(E.vt("ConstantInteger"), 16), 8)
        m.mem[(b, E.L.type)] = (E.ty[t], 8)
        m.mem[(b, E.off["int"])] = (v, 8)
        return Ptr(b)

    def inst(self, m, op, ty, kids, cmp=None):
        E = self.env
        b = ("obj", "new", len(m.events), self.made)
        self.made += 1
        for k, v in E.L.inst(b, op if isinstance(op, int) else E.ids[op], ty, kids).items():
            m.mem[k] = v
        name = E.idname.get(int(op)) if isinstance(op, int) else op
        m.mem[(b, 0)] = (Ptr(E.vt(CLASS.get(name, "Instruction")), 16), 8)
        if cmp is not None:
            m.mem[(b, E.L.cmp)] = (cmp, 4)
        return Ptr(b)

    def typeof(self, m, v):
        t = m.load(Ptr(v.base, self.env.L.type), 8, "ptr") if isinstance(v, Ptr) else None
        if tname(t) is None:
            raise Stop("type of an operand")
        return t

    def __call__(self, m, name, args, e):
        E = self.env
        if "IRBuilder::makeOp<" in name:
            cls = re.search(r"makeOp<cmmc::(\w+)", name).group(1)
            targs = split_args(name[name.index("makeOp<") + 7:-1])[1:]
            vals = []
            for a, t in zip(args[1:], targs):
                small = re.search(r"InstructionID|CompareOp", t)
                v = m.load(m.addr(a), 4 if small else 8, "i32" if small else "ptr")
                vals.append(v)
            if any(sym(v) and not isinstance(v, Ptr) for v in vals):
                raise Stop("operand of a new instruction")
            ty = lambda v: self.typeof(m, v)
            if cls == "BinaryInst" and len(vals) == 3:
                return self.inst(m, m.pin(vals[0]), ty(vals[1]), vals[1:])
            if cls == "UnaryInst" and len(vals) == 2:
                return self.inst(m, m.pin(vals[0]), ty(vals[1]), vals[1:])
            if cls == "CompareInst" and len(vals) == 4:
                return self.inst(m, m.pin(vals[0]), E.ty["i1"], vals[2:], vals[1])
            if cls == "CastInst" and len(vals) == 3:
                return self.inst(m, m.pin(vals[0]), vals[1], vals[2:])
            if cls == "SelectInst" and len(vals) == 3:
                return self.inst(m, "Select", ty(vals[1]), vals)
            if cls == "FMAInst" and len(vals) == 3:
                return self.inst(m, "FFma", ty(vals[0]), vals)
            raise Stop("new " + cls)
        if name.endswith(("IRBuilder::getTrue", "ConstantInteger::getTrue")):
            return self.const(m, E.ty["i1"], 1)
        if name.endswith(("IRBuilder::getFalse", "ConstantInteger::getFalse")):
            return self.const(m, E.ty["i1"], 0)
        if name.endswith("ConstantInteger::get"):
            return self.const(m, args[0], args[1])
        if name.startswith("cmmc::make<cmmc::ConstantFloatingPoint"):
            ty, v = m.load(m.addr(args[0]), 8, "ptr"), m.load(m.addr(args[1]), 8, "double")
            b = ("obj", "new", len(m.events), self.made)
            self.made += 1
            m.mem[(b, 0)] = (Ptr(E.vt("ConstantFloatingPoint"), 16), 8)
            m.mem[(b, E.L.type)] = (ty, 8)
            m.mem[(b, E.off["fp"])] = (v, 8)
            return Ptr(b)
        if name.endswith("IntegerType::getBoolean"):
            return E.ty["i1"]
        if name.endswith("IntegerType::get"):
            t = "i%d" % args[0] if isinstance(args[0], int) else None
            return E.ty.get(t)
        if name.endswith("FloatingPointType::get"):
            return E.ty["f64" if args[0] else "f32"]
        if name.endswith("isSame"):
            a, b = tname(args[0]), tname(args[1])
            if a and b:
                return int(a == b)
            return None
        if name.endswith("hasExactlyOneUse") or name.endswith("isUsed"):
            return 1
        if name.endswith("UserList::begin"):
            return self.userlist(m, args)
        if name.endswith("UserList::end"):
            return 0
        if name.endswith("ValueRef::resetValue"):
            m.store(Ptr(args[0].base, args[0].off + E.L.refval), args[1], 8)
            return 0
        if name.endswith("ValueRefHandle::~ValueRefHandle"):
            return 0
        if name.endswith("OperandView::OperandView"):
            m.store(m.addr(args[0]), args[1], 8)
            return 0
        if name == "indirect" and len(args) == 3 and isinstance(args[2], int) and sym(args[0]):
            return int(self.native(int(args[2])) if callable(self.native) else self.native)
        if re.search(r"::(getSignExtended|getZeroExtended|getValue)$", name) and isinstance(args[0], Ptr):
            memo = m.__dict__.setdefault("cmemo", {})
            k = (name, args[0])
            if k in memo and memo[k][0] == m.token:
                return memo[k][1]
            r = m.enter(m.funcs[name], args)
            memo[k] = (m.token, r)
            return r
        return self.h.call(m, name, args, e)

    def userlist(self, m, args):
        # one user that is not a comparison with zero
        b = ("obj", "user")
        r = ("obj", "uref")
        E = self.env
        m.mem[(r, self.env.L.refuser)] = (Ptr(b), 8)
        m.mem[(r, self.env.L.refnext)] = (0, 8)
        for k, v in E.L.inst(b, E.ids["Store"], E.ty["void"], [Ptr(("obj", "addr", 0)), Ptr(("obj", "n", 0))]).items():
            m.mem[k] = v
        m.mem[(b, 0)] = (Ptr(E.vt("StoreInst"), 16), 8)
        return Ptr(r)


def tname(p):
    return p.base[2] if isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[:2] == ("obj", "ty") else None


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and not d:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


# ---- expressions
class Unreadable(Exception):
    pass


def original(shape, env):
    memo = {}

    def rd(i):
        if i in memo:
            return memo[i]
        n = shape.nodes[i]
        if n.kind == "leaf":
            e = ("leaf", i, n.type)
        elif n.kind == "const":
            e = ("c", CInt(0, ("var", i)), n.type)
        elif n.kind == "fconst":
            e = ("f", n.val, n.type)
        elif n.kind == "gen":
            raise Unreadable("open operation")
        else:
            e = ("op", n.op, n.type, tuple(rd(k) for k in n.kids), CInt(0, ("var", i)) if n.op in ("ICmp", "FCmp") else None)
        memo[i] = e
        return e
    return rd(shape.root)


def read(mem, ptr, E, shape):
    memo, open_ = {}, set()

    def cell(b, o):
        x = mem.get((b, o))
        return x[0] if x else None

    def rd(p):
        if not isinstance(p, Ptr) or p.off:
            raise Unreadable("value %r" % (p,))
        b = p.base
        if b in memo:
            return memo[b]
        if b in open_:
            raise Unreadable("cyclic expression")
        open_.add(b)
        i = nodeof(p)
        ty = tname(cell(b, E.L.type))
        if ty is None:
            raise Unreadable("type of a value")
        if i is not None and shape.nodes[i].kind == "leaf":
            e = ("leaf", i, ty)
        elif i is not None and shape.nodes[i].kind == "gen":
            raise Unreadable("open operation")
        else:
            vt = cell(b, 0)
            cls = vt.base.rsplit("::", 1)[-1] if isinstance(vt, Ptr) else None
            if cls == "ConstantInteger":
                e = ("c", cell(b, E.off["int"]), ty)
            elif cls == "ConstantFloatingPoint":
                e = ("f", cell(b, E.off["fp"]), ty)
            else:
                op = E.idname.get(int(cell(b, E.L.id)))
                n = mem.get((("dqn", b, E.L.ops), 0))
                if op is None or n is None or op not in CLASS:
                    raise Unreadable("instruction %s" % op)
                ks = []
                for k in range(n[0]):
                    r = mem.get((("dq", b, E.L.ops), 8 * k))
                    v = cell(r[0].base, r[0].off + E.L.refval) if r and isinstance(r[0], Ptr) else None
                    ks.append(rd(v))
                e = ("op", op, ty, tuple(ks), cell(b, E.L.cmp) if op in ("ICmp", "FCmp") else None)
        open_.discard(b)
        memo[b] = e
        return e
    return rd(ptr)


def etext(e, E, env=None):
    t = e[0]
    if t == "leaf":
        return "%" + str(e[1])
    if t in "cf":
        v = e[1]
        if isinstance(v, CInt):
            v = Cond(v.term)(env) if env is not None else "c"
        return str(v if v is not None else "?")
    cmp = ""
    if e[4] is not None:
        c = e[4]
        if isinstance(c, CInt):
            c = Cond(c.term)(env) if env is not None else None
        cmp = "." + E.cmpname.get(c, "?")
    ty = "." + e[2] if e[1] in CASTS else ""
    return "%s%s%s(%s)" % (e[1], cmp, ty, ", ".join(etext(k, E, env) for k in e[3]))


def plain(e):
    """expression without the concrete constants that selected the path"""
    if e[0] == "op":
        return e[:3] + (tuple(plain(k) for k in e[3]), ("t", e[4].term) if isinstance(e[4], CInt) else e[4])
    if e[0] == "c" and isinstance(e[1], CInt):
        return ("c", ("t", e[1].term), e[2])
    return e


def fixcmp(e, env, sh):
    """expression with its comparison operators decided and its constants anonymous"""
    if e[0] == "op":
        c = e[4]
        return e[:3] + (tuple(fixcmp(k, env, sh) for k in e[3]), Cond(c.term)(env) if isinstance(c, CInt) else c)
    return ("c", None, e[2]) if e[0] == "c" else e


COMMUTE = {"Add", "Mul", "And", "Or", "Xor", "FAdd", "FMul", "SMin", "SMax", "UMin", "UMax"}


def forms(e, E):
    """expression with comparisons turned to 'less' and operands of commutative operations in either order"""
    if e[0] != "op":
        return [e]
    out = []
    for ks in itertools.product(*[forms(k, E) for k in e[3]]):
        if e[4] is not None:
            nm = e[4] if isinstance(e[4], str) else E.cmpname.get(e[4], "?")
            if "Greater" in nm:
                nm, ks = nm.replace("Greater", "Less"), ks[::-1]
            out.append(e[:3] + (ks, nm))
            if nm in ("ICmpEqual", "ICmpNotEqual"):
                out.append(e[:3] + (ks[::-1], nm))
        else:
            out.append(e[:3] + (ks, None))
            if e[1] in COMMUTE:
                out.append(e[:3] + (ks[::-1], None))
    return out[:64]


def instance(pattern, o, n):
    """the rewrite of o to n (each in all forms) is the pattern applied to larger operands"""
    def m(p, e, b):
        if p[2] != e[2]:
            return False
        if p[0] == "leaf":
            return b.setdefault(p[1], e) == e
        if p[0] != e[0]:
            return False
        if p[0] == "op":
            return p[1] == e[1] and p[4] == e[4] and len(p[3]) == len(e[3]) and all(m(x, y, b) for x, y in zip(p[3], e[3]))
        return p[1] == e[1]
    for a in o:
        b = {}
        if m(pattern[0], a, b) and any(m(pattern[1], x, dict(b)) for x in n):
            return True
    return False


def canonical(o, n):
    """text of a rewrite given in all forms"""
    def text(e, names):
        if e[0] == "leaf":
            return names.setdefault(e[1], "xyzuvwpqrst"[len(names)] if len(names) < 11 else "x%d" % e[1])
        if e[0] == "c":
            return "c"
        if e[0] == "f":
            return repr(e[1])
        ty = e[3][0][2] if e[4] is not None else e[2]
        return "%s.%s(%s)" % (e[4] or e[1], ty, ", ".join(text(k, names) for k in e[3]))
    best = None
    for a in o:
        names = {}
        t = text(a, names)
        if best is None or t < best[0]:
            best = (t, names)
    return "%s => %s" % (best[0], min(text(a, dict(best[1])) for a in n))


class UB(Exception):
    pass


class Skip(Exception):
    pass


def compile_expr(e):
    steps, memo = [], {}

    def go(e):
        k = id(e)
        if k in memo:
            return memo[k]
        if e[0] == "op":
            ks = tuple(go(x) for x in e[3])
            tys = tuple(x[2] for x in e[3])
            cmp = e[4]
            steps.append((e[1], e[2], ks, tys, Cond(cmp.term) if isinstance(cmp, CInt) else cmp))
        elif e[0] == "leaf":
            steps.append(("leaf", e[2], e[1], None, None))
        else:
            v = e[1]
            steps.append(("const", e[2], Cond(v.term) if isinstance(v, CInt) else v, None, None))
        memo[k] = len(steps) - 1
        return memo[k]
    go(e)
    return steps


def wrap(v, ty):
    if ty == "i1":
        return v & 1
    w = BITSOF[ty]
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


MODULAR = {"Add", "Sub", "Mul", "Neg", "And", "Or", "Xor", "Shl", "SignedTrunc", "UnsignedTrunc"}


def run_expr(steps, env, leaves, cmpname, strict):
    """value at constants env and leaf values; strict: undefined when an overflowed result meets a use that depends on it"""
    vals, ovf = [], []
    for op, ty, ks, tys, cmp in steps:
        o = False
        if op == "leaf":
            v = leaves[ks]
        elif op == "const":
            v = ks(env) if isinstance(ks, Cond) else ks
            if v is None or isinstance(v, tuple):
                raise Skip()
            if isint(ty):
                v = wrap(int(v), ty)
        elif op in INTBIN:
            a, b = vals[ks[0]], vals[ks[1]]
            w = BITSOF[ty]
            if strict and (ovf[ks[0]] or ovf[ks[1]]):
                if op not in MODULAR:
                    raise UB()
                o = True
            if ty == "i1" and op in ("SMin", "SMax", "SDiv", "SRem", "AShr"):
                raise Skip()
            r = INTBIN[op](a, b, w)
            if r is None:
                raise UB()
            v = wrap(r, ty)
            if op == "SDiv" and v != r:
                raise UB()
            if strict and w > 1 and v != r and op in ("Add", "Sub", "Mul", "Shl"):
                o = True
        elif op in INTUN:
            a = vals[ks[0]]
            if ty == "i1":
                raise Skip()
            if strict and ovf[ks[0]]:
                if op not in MODULAR:
                    raise UB()
                o = True
            r = INTUN[op](a, BITSOF[ty])
            v = wrap(r, ty)
            if strict and v != r:
                o = True
                if op == "Abs":
                    raise UB()
        elif op == "ICmp":
            c = cmp(env) if isinstance(cmp, Cond) else cmp
            n = cmpname.get(c)
            if n not in ICMP or tys[0] == "i1" and "Signed" in n and "Unsigned" not in n:
                raise Skip()
            if strict and (ovf[ks[0]] or ovf[ks[1]]):
                raise UB()
            v = int(ICMP[n](vals[ks[0]], vals[ks[1]]))
        elif op == "FCmp":
            c = cmp(env) if isinstance(cmp, Cond) else cmp
            n = cmpname.get(c)
            if n not in FCMP:
                raise Skip()
            v = int(FCMP[n](vals[ks[0]], vals[ks[1]]))
        elif op == "Select":
            c = vals[ks[0]]
            v = vals[ks[1] if c else ks[2]]
            o = ovf[ks[1] if c else ks[2]]
        elif op in FPBIN:
            try:
                v = FPBIN[op](vals[ks[0]], vals[ks[1]])
            except OverflowError:
                raise UB()
        elif op in FPUN:
            v = FPUN[op](vals[ks[0]])
        elif op == "FFma":
            v = vals[ks[0]] * vals[ks[1]] + vals[ks[2]]
        elif op in CASTS:
            sk, dk, f = CASTS[op]
            a = vals[ks[0]]
            if strict and ovf[ks[0]]:
                if op not in MODULAR:
                    raise UB()
                o = True
            if sk == "u":
                a = a if tys[0] == "i1" else uns(a, BITSOF[tys[0]])
            elif sk == "s" and tys[0] == "i1":
                raise Skip()
            if sk == "f" and (math.isnan(a) or math.isinf(a)):
                raise UB()
            r = f(a)
            if isint(ty):
                v = wrap(r, ty)
                if sk == "f" and v != r:
                    raise UB()
            else:
                v = r
        else:
            raise Skip()
        if isinstance(v, float) and (math.isnan(v) or math.isinf(v)) and op != "leaf":
            raise UB()
        vals.append(v)
        ovf.append(o)
    return vals[-1]


def close(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return a == b


def limits(ty):
    w = BITSOF[ty]
    return -(1 << w - 1), (1 << w - 1) - 1


CGRID = [0, 1, -1, 2, -2, 3, 4, -3, 5, 7, 8, 10, -7, 15, 16, 31, 32, 33, 63, 64, 100, -100, 255, 256, 1000, 65535, 65536, -65536]
LGRID = [0, 1, -1, 2, -2, 3, 5, -7, 8, 13, 31, 32, 100, -100, 1000, 65536, 0x55555555]
FGRID = [0.0, 1.0, -1.0, 2.5, -3.0, 0.5, 4.0, -0.25, 7.0]


def cgrid(ty):
    if ty == "i1":
        return [0, 1]
    lo, hi = limits(ty)
    g = [v for v in CGRID if lo <= v <= hi] + [hi, lo, hi - 1, lo + 1]
    if ty == "i64":
        g += [2**31 - 1, -2**31, 2**31, 2**32, 2**32 - 1, 2**40]
    return g


def lgrid(ty, cs):
    if ty == "i1":
        return [0, 1]
    lo, hi = limits(ty)
    g = [v for v in LGRID if lo <= v <= hi] + [hi, lo, hi - 1, lo + 1]
    if ty == "i64":
        g += [2**31, -2**31 - 1, 2**40]
    near = []
    for c in cs:
        near += [c, c + 1, c - 1, -c]
    for a, b in itertools.product(cs[:3], cs[:3]):
        near += [a * b, a * b + a, a * b - 1, a * b + a - 1, a * b - a + 1, a * b - a]
    return list(dict.fromkeys([wrap(v, ty) for v in near] + g))


class Result:
    """outcome of one path of one tree"""
    __slots__ = ("kind", "text", "detail", "tested")


class Explorer:
    CASTSRC = {"ZExt": {"i32": ("i1", "i8"), "i64": ("i32", "i1"), "i8": ("i1",)}, "SExt": {"i64": ("i32",), "i32": ("i8",)}, "SignedTrunc": {"i32": ("i64",), "i8": ("i32",)},
               "UnsignedTrunc": {"i1": ("i32", "i64"), "i32": ("i64",), "i8": ("i32",)}, "F2S": {"i32": ("f32",), "i64": ("f32",)}, "S2F": {"f32": ("i32",)}, "FCast": {"f64": ("f32",), "f32": ("f64",)},
               "U2F": {"f32": ("i32",)}, "F2U": {"i32": ("f32",)}}

    def __init__(self, env, root, native=1, args=None, seed=1, max_shapes=260, max_assign=2500, max_runs=160, leafcombos=120, depth=6, fconsts=(0.0, 1.0, -1.0, 2.0, 0.5, 3.0)):
        self.E, self.native = env, native
        self.fn = env.funcs[root]
        self.args = args
        self.rng = random.Random(seed)
        self.max_shapes, self.max_assign, self.max_runs, self.leafcombos, self.depth, self.fconsts = max_shapes, max_assign, max_runs, leafcombos, depth, fconsts
        self.stats = {"shapes": 0, "runs": 0, "paths": 0, "rewrites": 0, "judged": 0, "undecided": 0, "dropped": 0}
        self.cmptypes = ("i32", "i1", "i64")
        self.failed = []      # (original, rewritten, comparison operators, description), smallest first
        self.problems = {}    # key -> description
        self.done = {}        # rewrite text -> number of comparisons
        self.notes = {}

    # ---- shapes
    def inst_types(self, op, ty):
        """operand type tuples an operation of result type ty may have"""
        if op in INTBIN or op in INTUN:
            return [(ty,) * (2 if op in INTBIN else 1)] if isint(ty) and not (ty == "i1" and op not in ("And", "Or", "Xor", "Add", "Sub")) else []
        if op in FPBIN or op in FPUN:
            return [(ty,) * (2 if op in FPBIN else 1)] if ty[0] == "f" else []
        if op == "ICmp":
            return [(t, t) for t in self.cmptypes] if ty == "i1" else []
        if op == "FCmp":
            return [("f32", "f32")] if ty == "i1" else []
        if op == "Select":
            return [("i1", ty, ty)]
        if op == "FFma":
            return [(ty,) * 3] if ty[0] == "f" else []
        if op in CASTS:
            return [(s,) for s in self.CASTSRC.get(op, {}).get(ty, ())]
        return []

    def roots(self, op, ty):
        for tys in self.inst_types(op, ty):
            nodes = {0: Node("inst", ty, op, range(1, len(tys) + 1))}
            for i, t in enumerate(tys):
                nodes[i + 1] = Node("leaf", t)
            yield Shape(nodes)

    def grow(self, sh, what):
        """refinements of the tree that give another answer to a question"""
        N = sh.nodes
        out = []

        def put(i, node, kidtypes=()):
            nodes = dict(N)
            f = max(nodes) + 1
            ks = tuple(range(f, f + len(kidtypes)))
            for k, t in zip(ks, kidtypes):
                nodes[k] = Node("leaf", t)
            nodes[i] = Node(node.kind, node.type, node.op, ks, node.cls, node.val)
            out.append(Shape(nodes, sh.root))
        if what[0] == "same":
            a, b = what[1:]
            if a not in N or b not in N or N[a].type != N[b].type or sh.root in (a, b):
                return []
            if N[a].kind != "leaf":
                a, b = b, a
            if N[a].kind == "leaf" and N[b].kind != "gen" and not self.below(sh, b, a):
                nodes = {i: Node(n.kind, n.type, n.op, [b if k == a else k for k in n.kids], n.cls, n.val) for i, n in N.items() if i != a}
                out.append(Shape(nodes, sh.root).prune())
            elif N[a].kind == "const" and N[b].kind == "const":
                nodes = {i: Node(n.kind, n.type, n.op, [b if k == a else k for k in n.kids], n.cls, n.val) for i, n in N.items() if i != a}
                out.append(Shape(nodes, sh.root).prune())
            return out
        i = what[1]
        if i not in N or i == sh.root:
            return []
        n = N[i]
        if self.level(sh, i) > self.depth:
            return []
        if what[0] == "cls" and n.kind == "leaf" and isinstance(what[2], str):
            cls = what[2].rsplit("::", 1)[-1]
            if cls == "ConstantInteger" and isint(n.type):
                put(i, Node("const", n.type))
            elif cls == "ConstantFloatingPoint" and n.type[0] == "f":
                for v in self.fconsts:
                    put(i, Node("fconst", n.type, val=v))
            elif cls == "CompareInst" and n.type == "i1":
                for op in ("ICmp", "FCmp"):
                    for t in self.inst_types(op, "i1"):
                        put(i, Node("inst", "i1", op), t)
            elif cls == "SelectInst":
                put(i, Node("inst", n.type, "Select"), ("i1", n.type, n.type))
            elif cls == "FMAInst" and n.type[0] == "f":
                put(i, Node("inst", n.type, "FFma"), (n.type,) * 3)
            elif cls in ("BinaryInst", "UnaryInst", "CastInst"):
                put(i, Node("gen", n.type, cls=cls), (n.type,) * ARITY[cls])
        elif what[0] == "op" and what[2] is not None and n.kind in ("leaf", "gen"):
            op = self.E.idname.get(what[2])
            if op in CLASS and op != "Load" and (n.kind == "leaf" or CLASS[op] == n.cls):
                for t in self.inst_types(op, n.type):
                    put(i, Node("inst", n.type, op), t)
        for s in out:
            s.prune()
        return out

    def below(self, sh, a, b):
        """b is part of a"""
        work, seen = [a], set()
        while work:
            i = work.pop()
            if i == b:
                return True
            if i not in seen:
                seen.add(i)
                work += sh.nodes[i].kids
        return False

    def level(self, sh, i):
        d = {sh.root: 0}
        work = [sh.root]
        while work:
            k = work.pop(0)
            for c in sh.nodes[k].kids:
                if c not in d:
                    d[c] = d[k] + 1
                    work.append(c)
        return d.get(i, 99)

    def instances(self, sh):
        """trees with the open operations decided: the same one everywhere, and neighbouring ones"""
        gens = [i for i, n in sorted(sh.nodes.items()) if n.kind == "gen"]
        opts = {}
        for i in gens:
            n = sh.nodes[i]
            opts[i] = [(op, t) for op in CLASS if CLASS[op] == n.cls for t in self.inst_types(op, n.type)]
        if not gens or not all(opts.values()):
            return
        width = max(map(len, opts.values()))
        for shift in ((0, 1, 5) if len(gens) > 1 else (0,)):
            for k in range(width):
                nodes = dict(sh.nodes)
                for j, i in enumerate(gens):
                    n = nodes[i]
                    op, tys = opts[i][(k + j * shift) % len(opts[i])]
                    kids = []
                    for c, t in zip(n.kids, tys):
                        if nodes[c].type != t:
                            if nodes[c].kind not in ("leaf",) or sum(c in x.kids for x in nodes.values()) > 1:
                                kids = None
                                break
                            nodes[c] = Node("leaf", t)
                        kids.append(c)
                    if kids is None:
                        nodes = None
                        break
                    nodes[i] = Node("inst", n.type, op, kids)
                if nodes is not None:
                    yield Shape(nodes, sh.root)

    # ---- one tree
    def machine(self, sh, env, token):
        cells = dict(self.E.tmem)
        cells.update(self.E.cells(sh, env))
        args = self.args(sh) if self.args else [Ptr("closure"), Ptr(("obj", "n", sh.root))]
        m = M(self.fn, Model(self.E, self.native), args, mem0=cells, funcs=self.E.funcs, table=self.E.table, max_steps=30000, visits=40, max_traces=4)
        m.reset()
        m.token = token
        return m

    def run(self, sh, env):
        """(path, expression or None) for one assignment of constants"""
        m = self.machine(sh, env, self.stats["runs"])
        self.stats["runs"] += 1
        end = None
        try:
            ts = m.run()
        except (Undecided, Trap, RecursionError) as u:
            return m, ("und", str(u))
        if len(ts) != 1:
            return m, ("und", "%d outcomes" % len(ts))
        t = ts[0]
        if t.end != "ret":
            return m, ("und", str(t.end))
        r = t.ret
        try:
            if r == 0 or r is None:
                e = read(t.mem, Ptr(("obj", "n", sh.root)), self.E, sh)
                old = self.untouched(sh)
                if old is not None and plain(e) == plain(old):
                    return m, ("none", None)
            elif isinstance(r, Ptr):
                e = read(t.mem, r, self.E, sh)
            else:
                return m, ("und", "result not followed")
        except Unreadable as u:
            return m, ("und", str(u))
        return m, ("rewrite", e)

    def untouched(self, sh):
        try:
            return original(sh, self.E)
        except Unreadable:
            return None

    def domains(self, sh):
        d = {}
        for i, n in sh.nodes.items():
            if n.kind == "const":
                d[i] = cgrid(n.type)
            elif n.kind == "inst" and n.op == "ICmp":
                names = [k for k in self.E.cmpname.values() if k.startswith("ICmp")]
                if sh.nodes[n.kids[0]].type == "i1":
                    names = ["ICmpEqual", "ICmpNotEqual"]
                d[i] = [self.E.cmps[k] for k in names]
            elif n.kind == "inst" and n.op == "FCmp":
                d[i] = [v for k, v in self.E.cmps.items() if k.startswith("FCmp")]
        return d

    def assignments(self, dom):
        ks = sorted(dom)
        total = 1
        for k in ks:
            total *= len(dom[k])
        if total <= self.max_assign:
            l = [dict(zip(ks, v)) for v in itertools.product(*[dom[k] for k in ks])]
            self.rng.shuffle(l)
            return l
        seen, l = set(), []
        # every value and every pair of values at least once, then random combinations
        pairs = []
        for a, b in itertools.combinations(ks, 2):
            pairs += [{a: x, b: y} for x in dom[a] for y in dom[b]]
        self.rng.shuffle(pairs)
        while len(l) < self.max_assign:
            e = {k: self.rng.choice(dom[k]) for k in ks}
            if pairs:
                e.update(pairs.pop())
            k = tuple(e[x] for x in ks)
            if k not in seen:
                seen.add(k)
                l.append(e)
            elif not pairs and len(seen) >= total:
                break
        return l

    def explore_shape(self, sh):
        self.stats["shapes"] += 1
        dom = self.domains(sh)
        tree = [None, {}]     # execution tree: [condition, {outcome: subtree or leaf}]
        asks = set()
        groups = {}
        lits = set()
        runs0 = self.stats["runs"]

        def find(env):
            n = tree
            while True:
                if n[0] is None:
                    return n[1].get("leaf")
                v = n[0](env)
                if v is None:
                    return None
                n2 = n[1].get(bool(v))
                if n2 is None:
                    return None
                n = n2

        def insert(path, leaf, env):
            n = tree
            for t, v in path:
                while n[0] is not None and not sameterm(n[0].t, t):
                    # another value of a multiway decision
                    n = n[1].setdefault(bool(n[0](env)), [None, {}])
                if n[0] is None:
                    n[0] = Cond(t)
                    collect(t)
                n = n[1].setdefault(v, [None, {}])
            while n[0] is not None:
                n = n[1].setdefault(bool(n[0](env)), [None, {}])
            n[1]["leaf"] = leaf

        def collect(t):
            if isinstance(t, tuple) and t[0] != "var":
                if t[0].startswith("icmp") and len(t) == 3:
                    for x, y in ((t[1], t[2]), (t[2], t[1])):
                        if isinstance(y, Lit) and isinstance(x, tuple) and isinstance(y.v, int):
                            for v in tvars(x):
                                lits.add((v, y.v))
                for x in t[1:]:
                    collect(x)
        queue = self.assignments(dom)
        first = True
        leaves = []
        while queue:
            for env in queue:
                lf = find(env)
                if lf is None:
                    if self.stats["runs"] - runs0 >= self.max_runs:
                        self.stats["dropped"] += 1
                        continue
                    m, res = self.run(sh, env)
                    asks.update(m.asks)
                    lf = {"res": res, "envs": []}
                    leaves.append(lf)
                    insert(m.path, lf, env)
                    self.stats["paths"] += 1
                lf["envs"].append(env)
            if not first:
                break
            first = False
            # constants the reducer compares with
            extra = {}
            for v, y in lits:
                if v in dom and sh.nodes[v].kind == "const":
                    ty = sh.nodes[v].type
                    for d in (-1, 0, 1):
                        z = wrap(y + d, ty)
                        if z not in dom[v]:
                            extra.setdefault(v, []).append(z)
            queue = []
            for v, l in extra.items():
                l = list(dict.fromkeys(l))[:24]
                d2 = dict(dom)
                d2[v] = l
                queue += self.assignments(d2)[:600]
                dom[v] = dom[v] + l
        self.open = False
        for lf in leaves:
            self.open |= lf["res"] == ("und", "open operation")
            self.judge(sh, lf)
        return asks

    # ---- comparison
    def judge(self, sh, lf):
        kind, x = lf["res"]
        if kind == "none":
            return
        if kind == "und" and x == "open operation":
            return
        if kind == "und":
            self.notes[x] = self.notes.get(x, 0) + 1
            self.stats["undecided"] += 1
            return
        try:
            old = original(sh, self.E)
        except Unreadable:
            return
        if plain(old) == plain(x):
            return
        self.stats["rewrites"] += 1
        so, sn = compile_expr(old), compile_expr(x)
        lv = sorted(i for i, n in sh.nodes.items() if n.kind == "leaf")
        nan = {i for i in lv if sh.nodes[i].type[0] == "f" and all(sh.nodes[p].op == "FCmp" for p in sh.nodes if i in sh.nodes[p].kids)}
        envs = lf["envs"]
        if len(envs) > 60:
            envs = self.spread(sh, envs, 60)
        tested = 0
        key0 = "%s -> %s" % (sh.text(), etext(x, self.E))
        for env in envs:
            cs = [env[i] for i in env if sh.nodes[i].kind == "const"]
            grids = []
            for i in lv:
                t = sh.nodes[i].type
                grids.append(lgrid(t, cs) if isint(t) else FGRID + ([math.nan, math.inf] if i in nan else []))
            total = 1
            for g in grids:
                total *= len(g)
            if total <= self.leafcombos:
                combos = itertools.product(*grids)
            else:
                combos = [tuple(self.rng.choice(g) for g in grids) for _ in range(self.leafcombos)]
                k = len(grids)
                if k > 1:
                    combos += [tuple(g[j % len(g)] for g in grids) for j in range(max(map(len, grids)))]
            for vs in combos:
                leaves = dict(zip(lv, vs))
                try:
                    a = run_expr(so, env, leaves, self.E.cmpname, True)
                except (UB, Skip):
                    continue
                try:
                    b = run_expr(sn, env, leaves, self.E.cmpname, False)
                except Skip:
                    continue
                except UB:
                    b = None
                tested += 1
                if b is None or not close(a, b):
                    o1, n1 = forms(fixcmp(old, env, sh), self.E), forms(fixcmp(x, env, sh), self.E)
                    if not any(instance(p, o1, n1) for p in self.failed):
                        self.failed.append((o1[0], n1[0]))
                        self.problems[canonical(o1, n1)] = "%s becomes %s; with %s the first is %s, the second %s" % (
                            etext(old, self.E, env), etext(x, self.E, env), ", ".join("%%%d=%r" % kv for kv in sorted(leaves.items())) or "no inputs", a, "undefined" if b is None else b)
                    break
        self.stats["judged"] += tested
        if tested:
            self.done[key0] = self.done.get(key0, 0) + tested

    def spread(self, sh, envs, n):
        ext = [e for e in envs if any(sh.nodes[i].kind == "const" and (v in limits(sh.nodes[i].type) or v in (0, 1, -1)) for i, v in e.items())]
        rest = [e for e in envs if e not in ext]
        self.rng.shuffle(ext)
        self.rng.shuffle(rest)
        return (ext[:n // 2] + rest)[:n]

    def explore(self, op, ty, deadline=None):
        self.cmptypes = ("i32", "i1", "i64") if op == "ICmp" else ("i32", "i1")
        seen, queue = set(), []
        for sh in self.roots(op, ty):
            queue.append(sh)
            seen.add(sh.key())
        n = 0
        late = []
        while queue or late:
            if not queue:
                queue, late = late, []
            if n >= self.max_shapes or deadline and time.time() > deadline:
                self.stats["dropped_shapes"] = self.stats.get("dropped_shapes", 0) + len(queue)
                break
            sh = queue.pop(0)
            n += 1
            asks = self.explore_shape(sh)
            new = [w for s, w in sorted(asks, key=repr) if (s, w) not in sh.asked]
            known = sh.asked | asks
            if self.open:
                for s2 in self.instances(sh):
                    k = s2.key()
                    if k not in seen:
                        seen.add(k)
                        s2.asked = known
                        late.append(s2)
            for w in dict.fromkeys(new):
                for s2 in self.grow(sh, w):
                    k = s2.key()
                    if k not in seen:
                        seen.add(k)
                        s2.asked = known
                        queue.append(s2)
        return self
