"""Terms extracted by the analyser (S-expressions) and their value at an abstract valuation.
Opaque leaves are resolved by a model; an unresolved leaf makes the term undecided."""
import math
import struct, struct


class Undecided(Exception):
    pass


class Trap(Exception):
    """the term divides by zero or overflows in a division at this valuation"""


def parse(s):
    # tokens are produced by the tool with unambiguous quoting: see ExprPrinter (names have blanks escaped)
    stack, top = [], []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == "(":
            stack.append(top)
            top = []
            i += 1
        elif c == ")":
            t = tuple(top)
            top = stack.pop()
            top.append(t)
            i += 1
        elif c == " ":
            i += 1
        elif c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 1
            top.append(s[i:j + 1])
            i = j + 1
        else:
            j = i
            while j < n and s[j] not in "() ":
                j += 1
            top.append(s[i:j])
            i = j
    return top[0] if len(top) == 1 else tuple(top)


def unesc(name):
    return name.replace("\x01", " ").replace("\x02", "(").replace("\x03", ")")


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w and v >> (w - 1) else v


def uns(v, w):
    return v & ((1 << w) - 1)


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def show(t, lim=200):
    def f(t):
        return t if isinstance(t, str) else "(" + " ".join(f(x) for x in t) + ")"
    r = unesc(f(t))
    return r if len(r) <= lim else r[:lim] + "..."


class Eval:
    """model(term, ev) -> value or None; called first on every non-constant term"""

    def __init__(self, model):
        self.model = model
        self.memo = {}

    def __call__(self, t):
        try:
            return self.memo[t]
        except KeyError:
            pass
        v = self.ev(t)
        self.memo[t] = v
        return v

    def ev(self, t):
        if isinstance(t, str):
            try:
                return int(t)
            except ValueError:
                pass
            if t.startswith("fp:"):
                x = t[3:]
                if x == "NaN" or x == "-NaN":
                    return math.nan
                if x in ("+Inf", "Inf"):
                    return math.inf
                if x == "-Inf":
                    return -math.inf
                return float(x)
            v = self.model(t, self)
            if v is not None:
                return v
            if t == "null":
                return 0
            raise Undecided("leaf " + unesc(t))
        v = self.model(t, self)
        if v is not None:
            return v
        h = t[0]
        if h == "ite" or h == "select":
            return self(t[2]) if self(t[1]) else self(t[3])
        name, _, suf = h.partition(":")
        if name == "call":
            return self.call(t)
        if name.startswith("icmp-"):
            p = name[5:]
            a, b = self(t[1]), self(t[2])
            if not (isinstance(a, int) and isinstance(b, int)):
                if p == "eq":
                    return int(a == b)
                if p == "ne":
                    return int(a != b)
                raise Undecided("pointer order")
            w = 64 if suf in ("p", "") else int(suf)
            if p[0] == "u":
                a, b = uns(a, w), uns(b, w)
            else:
                a, b = sgn(a, w), sgn(b, w)
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p[-2:]])
        if name.startswith("fcmp-"):
            p = name[5:]
            a, b = self(t[1]), self(t[2])
            un = math.isnan(a) or math.isnan(b)
            if p == "ord":
                return int(not un)
            if p == "uno":
                return int(un)
            r = {"eq": a == b, "ne": a != b and not un, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p[1:]]
            return int(un or r) if p[0] == "u" else int(r)
        if name in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            w = int(suf) if suf else 64
            a, b = self(t[1]), self(t[2])
            if not (isinstance(a, int) and isinstance(b, int)):
                raise Undecided("non-integer operand")
            sa, sb, ua, ub = sgn(a, w), sgn(b, w), uns(a, w), uns(b, w)
            if name in ("sdiv", "srem"):
                if sb == 0:
                    raise Trap("division by zero")
                if sb == -1 and sa == -(1 << (w - 1)):
                    raise Trap("overflow in signed division")
                q = abs(sa) // abs(sb)
                q = -q if (sa < 0) != (sb < 0) else q
                return sgn(q if name == "sdiv" else sa - q * sb, w)
            if name in ("udiv", "urem"):
                if ub == 0:
                    raise Trap("division by zero")
                return sgn(ua // ub if name == "udiv" else ua % ub, w)
            if name in ("shl", "lshr", "ashr"):
                if ub >= w:
                    raise Undecided("shift amount out of range")
                return sgn({"shl": ua << ub, "lshr": ua >> ub, "ashr": sa >> ub}[name], w)
            return sgn({"add": sa + sb, "sub": sa - sb, "mul": sa * sb, "and": ua & ub, "or": ua | ub, "xor": ua ^ ub}[name], w)
        if name in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = self(t[1]), self(t[2])
            try:
                if name == "fadd":
                    return a + b
                if name == "fsub":
                    return a - b
                if name == "fmul":
                    return a * b
                if b == 0:
                    if a == 0 or math.isnan(a):
                        return math.nan
                    return math.copysign(math.inf, a) * math.copysign(1, b)
                return a / b
            except OverflowError:
                raise Undecided("overflow")
        if name == "fneg":
            return -self(t[1])
        if name in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr"):
            src, dst = suf.split(">")
            v = self(t[1])
            iw = lambda s: int(s[1:]) if s.startswith("i") else 64
            if name in ("ptrtoint", "inttoptr"):
                return v
            if name == "sext":
                return sgn(v, iw(src))
            if name == "zext":
                return sgn(uns(v, iw(src)), iw(dst))
            if name == "trunc":
                return sgn(v, iw(dst))
            if name == "sitofp":
                v = float(sgn(v, iw(src)))
                return f32(v) if dst == "float" else v
            if name == "uitofp":
                v = float(uns(v, iw(src)))
                return f32(v) if dst == "float" else v
            if name in ("fptosi", "fptoui"):
                if math.isnan(v) or math.isinf(v):
                    raise Undecided("fp to int of non-finite")
                x = int(v)
                w = iw(dst)
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if name == "fptosi" else (0, (1 << w) - 1)
                if not lo <= x <= hi:
                    raise Undecided("fp to int out of range")
                return sgn(x, w)
            if name == "fpext":
                return v
            if name == "fptrunc":
                return f32(v)
            fmt = {"double>i64": "<dq", "float>i32": "<fi", "i64>double": "<qd", "i32>float": "<if"}.get(suf)
            if name == "bitcast" and fmt and isinstance(v, float if suf[0] in "df" else int):
                return struct.unpack("<" + fmt[2], struct.pack("<" + fmt[1], v))[0]
            raise Undecided(h)
        if name == "lookup":
            k = self(t[1])
            if not isinstance(k, int) or not 0 <= k < len(t) - 2:
                raise Undecided("table index")
            return self(t[k + 2])
        if name == "freeze":
            return self(t[1])
        raise Undecided("operator " + h)

    def call(self, t):
        f = t[1]
        if f.startswith("llvm."):
            op = f.split(".")
            a = [self(x) for x in t[2:]]
            w = int(op[-1][1:]) if op[-1][1:].isdigit() else 64
            if op[1] in ("smax", "smin"):
                x = [sgn(v, w) for v in a]
                return max(x) if op[1] == "smax" else min(x)
            if op[1] in ("umax", "umin"):
                x = [uns(v, w) for v in a]
                return sgn(max(x) if op[1] == "umax" else min(x), w)
            if op[1] == "abs":
                return sgn(abs(sgn(a[0], w)), w)
            if op[1] == "fabs":
                return abs(a[0])
            if op[1] in ("fma", "fmuladd"):
                return ("fma",) + (tuple(sorted(map(repr, a[:2]))), repr(a[2]))
            if op[1] == "ctpop":
                return bin(uns(a[0], w)).count("1")
            if op[1] == "ctlz":
                return w - uns(a[0], w).bit_length()
            if op[1] == "cttz":
                u = uns(a[0], w)
                return w if u == 0 else (u & -u).bit_length() - 1
            if op[1] == "expect":
                return a[0]
            if op[1] in ("fshl", "fshr"):
                x, y, z = uns(a[0], w), uns(a[1], w), uns(a[2], w) % w
                v = (x << w) | y
                return sgn((v << z) >> w, w) if op[1] == "fshl" else sgn(v >> z, w)
        raise Undecided("call " + unesc(f))


INTS = [0, 1, -1, 2, -2, 3, 5, -7, 7, 13, 31, 32, 33, 63, 100, -100, 255, 256, 65535, -65536, 2**31 - 1, -2**31, 2**31, 2**32 - 1,
        2**40 + 3, -2**40 - 3, 2**62, 2**63 - 1, -2**63]
FPS = [0.0, -0.0, 1.0, -1.0, 1.5, -2.25, 3.0, -7.5, 0.1, 1e10, -1e10, 1e-10, math.inf, -math.inf, math.nan]


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


_pc = {}


def P(s):
    t = _pc.get(s)
    if t is None:
        t = _pc[s] = parse(s)
    return t


def outcomes(tree, model, limit=400):
    """all (events, ret) leaves of a decision tree that are compatible with the valuation;
    a condition the model cannot decide takes both branches, a cut loop contributes nothing.
    events: list of (callee, [arg terms], loc) or ("store", [ptr, val], loc)."""
    ev = Eval(model)
    res = []

    def walk(t, evs):
        if len(res) > limit:
            raise Undecided("too many outcomes")
        if t.get("cut") == "size":
            raise Undecided("decision tree too large")
        if "cut" in t:
            return
        for e in t.get("ev", ()):
            if "store" in e:
                evs = evs + [("store", [P(e["store"]), P(e["val"])], e["loc"])]
            else:
                evs = evs + [(e["callee"], [P(a) for a in e["args"]], e["loc"])]
        if "end" in t:
            res.append((evs, None))
        elif "ret" in t:
            res.append((evs, P(t["ret"])))
        elif "next" in t:
            walk(t["next"], evs)
        elif "cond" in t:
            try:
                c = ev(P(t["cond"]))
            except Undecided:
                walk(t["T"], evs)
                walk(t["F"], evs)
                return
            walk(t["T"] if c else t["F"], evs)
        elif "switch" in t:
            try:
                c = ev(P(t["switch"]))
            except Undecided:
                for k in t["cases"].values():
                    walk(k, evs)
                walk(t["default"], evs)
                return
            for k, sub in t["cases"].items():
                if int(k) == c:
                    walk(sub, evs)
                    return
            walk(t["default"], evs)
        # "stop": unreachable
    walk(tree, [])
    return ev, res
