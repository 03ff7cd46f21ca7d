"""Meaning of the source language (C's rules, as far as the language has them): an evaluator of syntax trees, and an
evaluator of the IR that the front end builds for them. Both produce a log of what is observable: which leaves are
evaluated in which order, which variables receive which values, and how control leaves."""
import math
from terms import Undecided, f32, sgn, uns
from semantics import INTBIN, FPBIN, ICMP, FCMP, tdiv
from absint import Ptr

W = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
isint = lambda t: t in W
CMP = ("LessThan", "LessEqual", "GreaterThan", "GreaterEqual", "Equal", "NotEqual")
INTONLY = ("Rem", "BitwiseAnd", "BitwiseOr", "Xor", "ShiftLeft", "ShiftRight")
ARITH = ("Add", "Sub", "Mul", "Div") + INTONLY + CMP
LIMIT = 60


class Skip(Exception):
    """the language does not define the result"""


class Cut(Exception):
    """log limit"""


class Reject(Exception):
    """the language does not allow the construct"""


def rnd(ty, v):
    return f32(v) if ty == "f32" else v


def promote(t, s):
    return ("i32", True) if isint(t) and W[t] < 32 else (t, s)


def common(a, b):
    """usual arithmetic conversions"""
    (ta, sa), (tb, sb) = a, b
    if not isint(ta) or not isint(tb):
        f = [t for t in (ta, tb) if not isint(t)]
        return ("f64" if "f64" in f else "f32"), False
    (ta, sa), (tb, sb) = promote(ta, sa), promote(tb, sb)
    if sa == sb:
        return (ta if W[ta] >= W[tb] else tb), sa
    u, s = (ta, tb) if not sa else (tb, ta)
    return (u, False) if W[u] >= W[s] else (s, True)


def conv(v, src, dst):
    """value conversion; ints are kept sign-extended at their width"""
    (ts, ss), (td, sd) = src, dst
    if td == "i1":
        return int(v != 0)
    if isint(ts):
        x = v if ss else uns(v, W[ts])
        if isint(td):
            return sgn(x, W[td])
        return rnd(td, float(x))
    if isint(td):
        if math.isnan(v) or math.isinf(v):
            raise Skip()
        t = int(v)
        lo, hi = (-(1 << (W[td] - 1)), (1 << (W[td] - 1)) - 1) if sd else (0, (1 << W[td]) - 1)
        if not lo <= t <= hi:
            raise Skip()
        return sgn(t, W[td])
    return rnd(td, v)


def arith(op, x, y, ty, s):
    if isint(ty):
        w = W[ty]
        if op in CMP:
            return int(ICMP["ICmp" + ("" if op in ("Equal", "NotEqual") else "Signed" if s else "Unsigned") + op](x, y))
        name = {"Add": "Add", "Sub": "Sub", "Mul": "Mul", "Div": "SDiv" if s else "UDiv", "Rem": "SRem" if s else "URem", "BitwiseAnd": "And", "BitwiseOr": "Or", "Xor": "Xor",
                "ShiftLeft": "Shl", "ShiftRight": "AShr" if s else "LShr"}[op]
        r = INTBIN[name](x, y, w)
        if r is None:
            raise Skip()
        if name in ("SDiv", "SRem") and x == -(1 << (w - 1)) and y == -1:
            raise Skip()
        return sgn(r, w)
    if op in CMP:
        return int(FCMP["FCmp" + ("Unordered" if op == "NotEqual" else "Ordered") + op](x, y))
    if op in INTONLY:
        raise Reject()
    return rnd(ty, FPBIN["F" + op](x, y))


class Tree:
    """evaluates a syntax tree"""

    def __init__(self, env, ret=("i32", True)):
        self.env, self.ret = env, ret
        self.log, self.visits, self.mem = [], {}, {}

    def out(self, x):
        self.log.append(x)
        if len(self.log) >= LIMIT:
            raise Cut()

    def tick(self):
        self.ticks = getattr(self, "ticks", 0) + 1
        if self.ticks > 4000:
            raise Cut()

    def leafval(self, d):
        k = self.visits.get(d[1], 0)
        self.visits[d[1]] = k + 1
        vs = self.env[d[1]]
        return vs[min(k, len(vs) - 1)]

    def var(self, d):
        if d[1] not in self.mem:
            self.mem[d[1]] = self.env[d[1]][0]
        return self.mem[d[1]]

    # expressions: -> (value, type, signed)
    def rv(self, d):
        self.tick()
        k = d[0]
        if k == "leaf":
            _, n, ty, s, form = d
            if isinstance(form, tuple):
                return rnd(ty, form[1]), ty, s
            self.out(("eval", n))
            return (self.leafval(d) if form == "r" else self.var(d)), ty, s
        if k == "cint":
            return sgn(d[1], d[2]), "i%d" % d[2], d[3]
        if k == "binary":
            op = d[1]
            if op == "Assign":
                n, ty, s = self.lv(d[2])
                v, t2, s2 = self.rv(d[3])
                v = conv(v, (t2, s2), (ty, s))
                self.store(n, v)
                return v, ty, s
            if op in ("LogicalAnd", "LogicalOr"):
                a = self.cond(d[2])
                if a == (op == "LogicalOr"):
                    return int(a), "i32", True
                return int(self.cond(d[3])), "i32", True
            a, b = self.rv(d[2]), self.rv(d[3])
            return self.binop(op, a, b)
        if k == "compound":
            n, ty, s = self.lv(d[2])
            a = (self.mem[n], ty, s)
            b = self.rv(d[3])
            v, t2, s2 = self.binop(d[1], a, b)
            v = conv(v, (t2, s2), (ty, s))
            self.store(n, v)
            return v, ty, s
        if k == "unary":
            v, ty, s = self.rv(d[2])
            op = d[1]
            if op == "LogicalNot":
                return int(v == 0), "i32", True
            t2, s2 = promote(ty, s)
            v = conv(v, (ty, s), (t2, s2)) if isint(ty) else v
            if op == "Positive":
                return v, t2, s2
            if op == "Neg":
                return (sgn(-v, W[t2]) if isint(t2) else -v), t2, s2
            if op == "BitwiseNot":
                if not isint(t2):
                    raise Reject()
                return sgn(~v, W[t2]), t2, s2
        if k == "incdec":
            n, ty, s = self.lv(d[2])
            old = self.mem[n]
            dlt = 1 if d[1].endswith("Inc") else -1
            new = sgn(old + dlt, W[ty]) if isint(ty) else rnd(ty, old + dlt)
            self.store(n, new)
            return (new if d[1].startswith("Prefix") else old), ty, s
        if k == "select":
            c = self.cond(d[1])
            ta, tb = self.typeof(d[2]), self.typeof(d[3])
            t = common(ta, tb)
            v, ty, s = self.rv(d[2] if c else d[3])
            return conv(v, (ty, s), t), t[0], t[1]
        if k == "comma":
            self.rv(d[1])
            return self.rv(d[2])
        if k in ("cast", "castexpr"):
            v, ty, s = self.rv(d[1])
            return conv(v, (ty, s), (d[2], d[3])), d[2], d[3]
        if k == "empty":
            return None, None, None
        raise Undecided("meaning of " + k)

    def typeof(self, d):
        k = d[0]
        if k == "leaf":
            return d[2], d[3]
        if k == "cint":
            return "i%d" % d[2], d[3]
        if k == "binary" and d[1] in CMP + ("LogicalAnd", "LogicalOr"):
            return "i32", True
        if k == "binary" and d[1] == "Assign" or k in ("compound", "incdec"):
            return self.typeof(d[2])
        if k == "binary":
            if d[1] in ("ShiftLeft", "ShiftRight"):
                return promote(*self.typeof(d[2]))
            return common(self.typeof(d[2]), self.typeof(d[3]))
        if k == "unary":
            return ("i32", True) if d[1] == "LogicalNot" else promote(*self.typeof(d[2]))
        if k == "select":
            return common(self.typeof(d[2]), self.typeof(d[3]))
        if k == "comma":
            return self.typeof(d[2])
        if k in ("cast", "castexpr"):
            return d[2], d[3]
        raise Undecided("type of " + k)

    def binop(self, op, a, b):
        if op in INTONLY and not (isint(a[1]) and isint(b[1])):
            raise Reject()
        if op in ("ShiftLeft", "ShiftRight"):
            t = promote(a[1], a[2])
            n = b[0] if b[2] else uns(b[0], W[b[1]])
            if not 0 <= n < W[t[0]]:
                raise Skip()
            return arith(op, conv(a[0], a[1:], t), n, *t), t[0], t[1]
        t = common(a[1:], b[1:])
        v = arith(op, conv(a[0], a[1:], t), conv(b[0], b[1:], t), *t)
        return (v, "i32", True) if op in CMP else (v, t[0], t[1])

    def lv(self, d):
        if d[0] == "leaf" and isinstance(d[4], str) and d[4].startswith("l"):
            self.out(("eval", d[1]))
            self.var(d)
            return d[1], d[2], d[3]
        raise Reject()

    def store(self, n, v):
        self.mem[n] = v
        self.out(("store", n, v))

    def cond(self, d):
        v, ty, s = self.rv(d)
        return v != 0

    # statements: -> None, "break", "continue", ("ret", v), or ("case", ...) handled by switch
    def st(self, d):
        self.tick()
        if d is None:
            return None
        k = d[0]
        if k == "stmt":
            self.out(("stmt", d[1]))
            return None
        if k == "scope":
            return self.seq(d[1:])
        if k == "ifelse":
            return self.st(d[2]) if self.cond(d[1]) else self.st(d[3])
        if k == "while":
            while self.cond(d[1]):
                r = self.st(d[2])
                if r == "break":
                    break
                if r not in (None, "continue"):
                    return r
            return None
        if k == "dowhile":
            while True:
                r = self.st(d[1])
                if r == "break":
                    break
                if r not in (None, "continue"):
                    return r
                if not self.cond(d[2]):
                    break
            return None
        if k == "for":
            self.st(d[1])
            while d[2] is None or self.cond(d[2]):
                r = self.st(d[4])
                if r == "break":
                    break
                if r not in (None, "continue"):
                    return r
                self.st(d[3])
            return None
        if k == "switch":
            v, ty, s = self.rv(d[1])
            t = promote(ty, s)
            v = conv(v, (ty, s), t)
            body = list(d[2][1:]) if d[2][0] == "scope" else [d[2]]
            start = None
            for i, x in enumerate(body):
                if x[0] == "case" and x[1] is not None and conv(x[1][4][1], x[1][2:4], t) == v:
                    start = i
            if start is None:
                for i, x in enumerate(body):
                    if x[0] == "case" and x[1] is None:
                        start = i
            if start is None:
                return None
            r = self.seq(body[start:])
            return None if r == "break" else r
        if k == "case":
            return None
        if k in ("break", "continue"):
            return k
        if k == "return":
            if d[1] is None:
                return ("ret", None)
            v, ty, s = self.rv(d[1])
            return ("ret", conv(v, (ty, s), self.ret))
        if k == "empty":
            return None
        self.rv(d)
        return None

    def seq(self, l):
        for x in l:
            r = self.st(x)
            if r is not None:
                return r
        return None


def allowed(d, loop=False, brk=False, sw=False):
    """raises Reject for misplaced or repeated labels and jumps"""
    if d is None or d[0] in ("leaf", "stmt", "empty", "return", "cint"):
        return
    k = d[0]
    if k == "break" and not brk or k == "continue" and not loop or k == "case" and not sw:
        raise Reject()
    if k in ("while", "dowhile", "for"):
        for x in d[1:]:
            if x is not None:
                allowed(x, True, True, sw)
    elif k == "switch":
        seen = set()
        ty, s = Tree({}).typeof(d[1])
        if not isint(ty):
            raise Reject()
        t = promote(ty, s)
        for x in (d[2][1:] if d[2][0] == "scope" else [d[2]]):
            if x[0] == "case":
                if x[1] is not None and not isinstance(x[1][4], tuple):
                    raise Reject()
                v = None if x[1] is None else conv(x[1][4][1], x[1][2:4], t)
                if v in seen:
                    raise Reject()
                seen.add(v)
            allowed(x, loop, True, True)
    elif k in ("scope", "ifelse"):
        for x in d[1:]:
            allowed(x, loop, brk, sw)


class IR:
    """evaluates the blocks the front end built"""

    def __init__(self, E, t):
        self.E, self.t = E, t
        self.blocks = {}
        for x in t.events:
            if x[0] == "IR":
                self.blocks.setdefault(x[1], []).append(x[2])
        self.cell = lambda k, d=None: t.mem.get((("ctx", k), 0), (d, 8))[0]

    def const(self, b):
        return self.t.mem.get((("ctx", "const", b), 0), (None, 8))[0]

    def typename(self, tb):
        return tb[0] if tb else None

    def run(self, env):
        """-> (log, exit, value of getter) """
        self.log, self.visits, self.mem, self.v, self.env = [], {}, {}, {}, env
        cur, prev = ("obj", "block", "entry"), None
        steps = 0
        while True:
            nxt = None
            new = {}
            for x in self.blocks.get(cur, []):
                steps += 1
                if steps > 20000 or len(self.log) >= LIMIT:
                    raise Cut()
                if x[0] == "stmt":
                    self.log.append(("stmt", x[1]))
                elif x[0] == "eval":
                    self.log.append(("eval", x[1]))
                    k = self.visits.get(x[1], 0)
                    self.visits[x[1]] = k + 1
                    vs = self.env[x[1]]
                    self.v[("obj", "leaf", x[1])] = vs[min(k, len(vs) - 1)]
                elif x[0] == "inst":
                    nxt = self.step(x, prev)
                    if nxt is not None:
                        break
            if len(self.log) >= LIMIT:
                raise Cut()
            if nxt is None:
                return ("end", cur)
            if nxt[0] == "goto":
                prev, cur = cur, nxt[1]
                continue
            return nxt

    def value(self, p, ty=None):
        c = self.const(p.base)
        if c is not None:
            return sgn(c[1], W[c[0]]) if isint(c[0]) and c[0] != "i1" else c[1] if isint(c[0]) else rnd(c[0], c[1])
        if p.base in self.v:
            return self.v[p.base]
        raise Undecided("value of %r" % (p.base,))

    def typeof(self, p):
        c = self.const(p.base)
        if c is not None:
            return c[0]
        t = self.t.mem.get((p.base, self.E.L.type), (None, 8))[0]
        return t.base[2] if isinstance(t, Ptr) else None

    def var(self, p):
        if p.base[:2] != ("obj", "leaf"):
            raise Undecided("address %r" % (p.base,))
        n = p.base[2]
        if n not in self.mem:
            self.mem[n] = self.env[n][0]
        return n

    def step(self, x, prev):
        _, b, op, tb, ops, cmp, extra = x
        ty = self.typename(tb)
        if op == "Branch":
            return ("goto", extra[0].base)
        if op == "ConditionalBranch":
            return ("goto", extra[0 if self.value(ops[0]) & 1 else 1].base)
        if op == "Switch":
            v = self.value(ops[0])
            for k, t in self.cell(("edges", b), ()):
                if k == v:
                    return ("goto", t.base)
            return ("goto", self.t.mem[(("ctx", "default", b), 0)][0].base)
        if op == "Ret":
            return ("ret", self.value(ops[0]) if ops else None)
        if op == "Unreachable":
            return ("unreachable",)
        if op == "Phi":
            for blk, v in self.cell(("phi", b), ()):
                if blk == prev:
                    self.v[b] = self.value(v)
                    return None
            raise Undecided("phi without the predecessor")
        if op == "Load":
            self.v[b] = self.mem[self.var(ops[0])]
            return None
        if op == "Store":
            n = self.var(ops[0])
            if self.typeof(ops[1]) is None:
                raise Undecided("type of a stored value")
            self.mem[n] = self.value(ops[1])
            self.log.append(("store", n, self.mem[n]))
            return None
        vs = [self.value(o) for o in ops]
        st = self.typeof(ops[0])
        if op == "Select":
            self.v[b] = vs[1] if vs[0] & 1 else vs[2]
        elif op == "ICmp":
            w = W[st]
            f = ICMP[cmp]
            self.v[b] = int(f(vs[0], vs[1])) if "Unsigned" not in cmp else int(f(uns(vs[0], w), uns(vs[1], w)))
        elif op == "FCmp":
            self.v[b] = int(FCMP[cmp](*vs))
        elif op in INTBIN:
            if self.typeof(ops[1]) != st or not isint(st):
                raise Mistyped("%s on %s and %s" % (op, st, self.typeof(ops[1])))
            if op in ("SDiv", "SRem", "UDiv", "URem") and vs[1] == 0:
                raise Skip()
            r = INTBIN[op](vs[0], vs[1], W[st])
            if r is None:
                raise Skip()
            self.v[b] = sgn(r, W[st]) if st != "i1" else r & 1
        elif op in FPBIN:
            if self.typeof(ops[1]) != st or isint(st):
                raise Mistyped("%s on %s and %s" % (op, st, self.typeof(ops[1])))
            self.v[b] = rnd(st, FPBIN[op](*vs))
        elif op == "Neg":
            if not isint(st):
                raise Mistyped("Neg on " + st)
            self.v[b] = sgn(-vs[0], W[st])
        elif op == "FNeg":
            if isint(st):
                raise Mistyped("FNeg on " + st)
            self.v[b] = -vs[0]
        elif op == "SExt":
            self.v[b] = vs[0] if st != "i1" else -(vs[0] & 1)
        elif op == "ZExt":
            self.v[b] = sgn(uns(vs[0], W[st]), W[ty])
        elif op in ("SignedTrunc", "UnsignedTrunc"):
            self.v[b] = sgn(vs[0], W[ty]) if ty != "i1" else vs[0] & 1
        elif op in ("F2S", "F2U"):
            if isint(st):
                raise Mistyped(op + " on " + st)
            x = vs[0]
            if math.isnan(x) or math.isinf(x):
                raise Skip()
            t, w = int(x), W[ty]
            if not ((-(1 << (w - 1)) <= t < (1 << (w - 1))) if op == "F2S" else 0 <= t < (1 << w)):
                raise OutOfRange()
            self.v[b] = sgn(t, w)
        elif op in ("S2F", "U2F"):
            if not isint(st):
                raise Mistyped(op + " on " + st)
            self.v[b] = rnd(ty, float(vs[0] if op == "S2F" else uns(vs[0], W[st])))
        elif op == "FCast":
            self.v[b] = rnd(ty, vs[0])
        else:
            raise Undecided("meaning of " + str(op))
        return None


class Mistyped(Exception):
    """an instruction whose operands have the wrong type"""


class OutOfRange(Exception):
    """conversion of a number the target type cannot hold"""


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if a is None or b is None:
            return a is b
        if math.isnan(a) and math.isnan(b):
            return True
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def samelog(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(same(p, q) if not isinstance(p, str) else p == q for p, q in zip(x, y)) for x, y in zip(a, b))
