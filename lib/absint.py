"""Abstract interpreter over the residual graph of a function (irtool spec --cfg).
Values are constants, pointers with known base and offset, or symbolic terms; the
model of a check gives the meaning of the opaque calls. A condition that stays symbolic
splits the trace (the same condition is decided the same way along one trace). No solver:
a trace whose assumptions are contradictory beyond syntactic equality is simply kept,
and the checks are written so that extra traces can only make an instance undecided."""
import math
import terms
from terms import Eval, Undecided, Trap, P, sgn, uns, unesc


ORD = {k: f for s in "us" for k, f in ((s + "lt", lambda a, b: a < b), (s + "le", lambda a, b: a <= b), (s + "gt", lambda a, b: a > b), (s + "ge", lambda a, b: a >= b))}


INTRIN = tuple("llvm." + x for x in ("umin", "umax", "smin", "smax", "abs", "cttz", "ctlz", "ctpop", "fshl", "fshr", "bswap", "usub.sat", "uadd.sat", "ssub.sat", "sadd.sat", "usub.with", "uadd.with", "umul.with", "ssub.with", "sadd.with", "smul.with"))


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Truncated(Exception):
    pass


class Stop(Exception):
    """the trace ends here (model decision)"""


class Ptr(tuple):
    """(base, offset)"""
    __slots__ = ()

    def __new__(cls, base, off=0):
        return tuple.__new__(cls, ("ptr", base, off))

    base = property(lambda s: s[1])
    off = property(lambda s: s[2])


def sym(x):
    return isinstance(x, tuple)


class Mem(dict):
    """(base, offset) -> (value, size), indexed by base"""

    def __init__(self, src=()):
        super().__init__(src)
        self.by = {}
        for b, o in self:
            self.by.setdefault(b, set()).add(o)

    def __setitem__(self, k, v):
        if k not in self:
            self.by.setdefault(k[0], set()).add(k[1])
        super().__setitem__(k, v)

    def setdefault(self, k, v):
        if k not in self:
            self[k] = v
        return self[k]

    def update(self, d):
        for k, v in d.items():
            self[k] = v

    def __delitem__(self, k):
        super().__delitem__(k)
        self.by[k[0]].discard(k[1])

    def offsets(self, b):
        return self.by.get(b, ())


class Trace:
    __slots__ = ("assume_of", "events", "ret", "assume", "mem", "end", "env")

    def __repr__(self):
        return "Trace(%r, ret=%r)" % (self.events, self.ret)


class Machine:
    """fn: {"blocks": [...]}; call(m, name, args, ev) -> value | None (None: opaque);
    args: values of the parameters (None: symbolic)"""

    def __init__(self, fn, call=None, args=(), decide=None, visits=3, max_traces=2000, load=None, keep=None, start=0, max_steps=4000, mem0=None, objects=(), funcs=None, table=None):
        self.objects = set(objects)
        self.funcs = funcs or {}   # other functions of the residual program, by name
        self.table = table or {}   # (global, offset) -> value of constant data
        self.tab = {}
        for (b, o), x in self.table.items():
            self.tab.setdefault(b, []).append((o, x))
        self.mem0 = mem0 or {}
        self.blocks = fn["blocks"]
        self.nargs = fn.get("args", 0)
        self.callm, self.decidem, self.loadm = call, decide, load
        self.args = list(args) + [None] * (self.nargs - len(args))
        self.visits, self.max_traces, self.max_steps = visits, max_traces, max_steps
        self.keep = keep
        self.start = start
        self.truncated = 0
        self.alive = None

    def succs(self, b):
        k = self.blocks[b]
        if "switch" in k:
            return list(k["cases"].values()) + [k["default"]]
        return k.get("succ", [])

    def restrict(self, is_sink):
        """end a trace as soon as no event of interest can follow before the region's start is entered again"""
        pred = {}
        for b in range(len(self.blocks)):
            for s in self.succs(b):
                pred.setdefault(s, []).append(b)
        work = [i for i, b in enumerate(self.blocks) if any("call" in e and is_sink(e["call"]) for e in b["ev"])]
        alive = set()
        while work:
            b = work.pop()
            if b in alive:
                continue
            alive.add(b)
            if b != self.start:
                work += pred.get(b, [])
        self.alive = alive
        return bool(alive)

    # ---- values
    def leaf(self, t):
        if t.startswith("%"):
            try:
                return self.env[t]
            except KeyError:
                return ("ext", t)
        if t.startswith("arg"):
            v = self.args[int(t[3:])]
            return Ptr(t) if v is None else v
        if t == "null":
            return 0
        if t in ("poison", "undef"):
            return ("undef", t)
        if t.startswith("@"):
            return Ptr(t)
        if t.startswith('"'):
            return t
        if t.startswith("fp:"):
            return Eval(lambda a, b: None)(t)
        try:
            return int(t)
        except ValueError:
            return ("k", t)

    def val(self, t):
        if isinstance(t, str):
            return self.leaf(t)
        h = t[0]
        if h in ("gep",):
            b = self.val(t[2])
            off = int(t[1])
            rest = []
            for m in t[3:]:
                i = self.val(m[2])
                if isinstance(i, int):
                    off += int(m[1]) * sgn(i, 64)
                else:
                    rest.append((m[1], i))
            if rest:
                return ("gep", self.norm(b, off), tuple(rest))
            return self.norm(b, off)
        if h in ("select", "ite"):
            return self.val(t[2]) if self.truth(self.val(t[1])) else self.val(t[3])
        if h == "call" and isinstance(t[1], str) and t[1].startswith(INTRIN):
            return self.intrin(t[1], [self.val(x) for x in t[2:]])
        vs = [self.val(x) for x in t[1:]]
        return self.op(h, vs)

    @staticmethod
    def intrin(name, vs):
        parts = name.split(".")
        f, ty = parts[1], parts[-1]
        n = int(ty[1:]) if ty[1:].isdigit() else None
        if n is None or any(not isinstance(v, int) for v in vs):
            return ("call", name) + tuple(vs)
        if f in ("cttz", "ctlz", "ctpop"):
            x = uns(vs[0], n)
            return bin(x).count("1") if f == "ctpop" else n if x == 0 else (x & -x).bit_length() - 1 if f == "cttz" else n - x.bit_length()
        if f in ("fshl", "fshr"):
            a, b, k = uns(vs[0], n), uns(vs[1], n), uns(vs[2], n) % n
            w = a << n | b
            return sgn(w >> (n - k) if f == "fshl" else w >> k, n)
        if f == "bswap":
            return sgn(int.from_bytes(uns(vs[0], n).to_bytes(n // 8, "little"), "big"), n)
        if len(parts) > 2 and parts[2] == "with" and f in ("usub", "uadd", "umul", "ssub", "sadd", "smul"):
            cv = uns if f[0] == "u" else sgn
            a, b = cv(vs[0], n), cv(vs[1], n)
            r = {"add": a + b, "sub": a - b, "mul": a * b}[f[1:]]
            return ("agg", sgn(r, n), int(cv(r, n) != r))
        if f in ("usub", "uadd", "ssub", "sadd"):
            if parts[2] != "sat":
                return ("call", name) + tuple(vs)
            cv, lo, hi = (uns, 0, (1 << n) - 1) if f[0] == "u" else (sgn, -(1 << n - 1), (1 << n - 1) - 1)
            a, b = cv(vs[0], n), cv(vs[1], n)
            return sgn(max(lo, min(hi, a + b if f.endswith("add") else a - b)), n)
        if f == "abs":
            return abs(sgn(vs[0], n))
        cv = uns if f[0] == "u" else sgn
        return sgn((min if f.endswith("min") else max)(*[cv(v, n) for v in vs]), n)

    def norm(self, b, off):
        if isinstance(b, Ptr):
            return Ptr(b.base, b.off + off) if off else b
        if b == 0 and off == 0:
            return 0
        if isinstance(b, int):
            return b + off
        return Ptr(b, off)

    def op(self, h, vs):
        if all(not sym(v) and not isinstance(v, str) for v in vs):
            try:
                return Eval(lambda a, b: None).ev((h,) + tuple(Lit(v) for v in vs))
            except Undecided:
                return (h,) + tuple(vs)
        if any(isinstance(v, tuple) and v[:1] == ("cells",) and all(type(x) is int for _, x, _ in v[2:]) for v in vs) and not h.startswith("insertvalue"):
            # adjacent known fields read as one number (bytes between them are padding)
            return self.op(h, [sgn(sum(uns(x, 8 * n) << (8 * o) for o, x, n in v[2:]), 8 * v[1]) if isinstance(v, tuple) and v[:1] == ("cells",) and v[1] <= 8 and all(type(x) is int for _, x, _ in v[2:]) else v for v in vs]) if all(
                v[1] <= 8 for v in vs if isinstance(v, tuple) and v[:1] == ("cells",)) else (h,) + tuple(vs)
        name, _, suf = h.partition(":")
        if name.startswith("extractvalue.") and isinstance(vs[0], tuple) and vs[0][:1] == ("agg",) and name[13:].isdigit():
            return vs[0][1 + int(name[13:])]
        if name.startswith("insertvalue.") and name[12:].isdigit() and len(vs) == 2 and isinstance(vs[0], tuple) and vs[0] and vs[0][0] in ("undef", "agg"):
            l = list(vs[0][1:]) if vs[0][0] == "agg" else []
            k = int(name[12:])
            l += [("undef", "poison")] * (k + 1 - len(l))
            l[k] = vs[1]
            return ("agg",) + tuple(l)
        if len(vs) == 2 and isinstance(vs[0], Ptr) and (isinstance(vs[1], int) or isinstance(vs[1], Ptr) and vs[1].base == vs[0].base):
            # addresses of one object
            a, b = vs
            if name == "sub" and isinstance(b, Ptr):
                return a.off - b.off
            if name in ("add", "sub") and isinstance(b, int):
                return self.norm(a, sgn(b, 64) if name == "add" else -sgn(b, 64))
            if name.startswith("icmp-") and isinstance(b, Ptr) and name[5:] in ORD:
                return int(ORD[name[5:]](a.off, b.off))
        if name == "add" and len(vs) == 2 and isinstance(vs[1], Ptr) and isinstance(vs[0], int):
            return self.norm(vs[1], sgn(vs[0], 64))
        if name in ("icmp-eq", "icmp-ne"):
            e = self.equal(vs[0], vs[1])
            if e is not None:
                return int(e == (name == "icmp-eq"))
        if suf == "1" and name in ("and", "or", "xor") or h in ("and:1", "or:1", "xor:1"):
            a, b = vs
            if name == "and":
                if a == 0 or b == 0:
                    return 0
                if not sym(a):
                    return b
                if not sym(b):
                    return a
            if name == "or":
                if (not sym(a) and a) or (not sym(b) and b):
                    return 1
                if not sym(a):
                    return b
                if not sym(b):
                    return a
            if name == "xor":
                c, x = (a, b) if not sym(a) else (b, a)
                if not sym(c):
                    return self.neg(x) if c & 1 else x
        if name in ("ptrtoint", "inttoptr", "freeze", "bitcast"):
            return vs[0]
        if name in ("zext", "trunc") and sym(vs[0]):
            # widening of booleans: transparent for comparisons with zero
            if name == "trunc" and vs[0][0].startswith("zext:") and suf.split(">")[1] == vs[0][0].split(":")[1].split(">")[0]:
                return vs[0][1]
        if name == "icmp-ne" and vs[1] == 0 and sym(vs[0]) and vs[0][0].startswith("zext:i1>"):
            return vs[0][1]
        if name == "icmp-eq" and vs[1] == 0 and sym(vs[0]) and vs[0][0].startswith("zext:i1>"):
            return self.neg(vs[0][1])
        if name in ("icmp-eq", "icmp-ne") and 0 in [v for v in vs if not sym(v)]:
            x = vs[0] if sym(vs[0]) else vs[1]
            if isinstance(x, tuple) and x[0].startswith("zext:i1>"):
                return x[1] if name == "icmp-ne" else self.neg(x[1])
        return (h,) + tuple(vs)

    @staticmethod
    def neg(x):
        if not sym(x):
            return int(not x)
        if x[0] == "not":
            return x[1]
        return ("not", x)

    def object(self, p):
        """points into an object of its own (not null, different from every other object)"""
        return isinstance(p.base, str) and (p.base.startswith("@") or p.base in self.objects) or \
            isinstance(p.base, tuple) and p.base[0] in ("alloca", "obj", "mapnode", "dq", "dqmap")

    def equal(self, a, b):
        if a == b and not (sym(a) and a[0] == "undef"):
            return True
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa and pb:
            if a.base == b.base:
                return a.off == b.off
            k = self.object
            if k(a) and k(b):
                return False
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ptr) and y == 0:
                if self.object(x):
                    return False
                if x.off and isinstance(x.base, str):
                    return False
            if isinstance(x, str) and y == 0:
                return False
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "obj" and b[0] == "obj":
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "obj" and (y == 0 or isinstance(y, Ptr) and self.object(y)):
                return False
        return None

    def truth(self, v):
        if not sym(v):
            if isinstance(v, str):
                return True
            return bool(v)
        if v[0] == "not":
            return not self.truth(v[1])
        if v[0].startswith("icmp-eq"):
            a, b = v[1], v[2]
            if sym(b) and not sym(a):
                a, b = b, a
            v = ("icmp-eq", a, b)
            if not sym(b) and a in self.eqv:
                return self.eqv[a] == b
        if v in self.assume:
            return self.assume[v]
        if v[0] in ("and:1",):
            return self.truth(v[1]) and self.truth(v[2])
        if v[0] in ("or:1",):
            return self.truth(v[1]) or self.truth(v[2])
        if v[0].startswith("icmp-ne"):
            return not self.truth(("icmp-eq" + v[0][7:],) + v[1:])
        if self.decidem:
            d = self.decidem(self, v)
            if d is not None:
                return bool(d)
        raise Fork(v)

    # ---- memory
    def load(self, p, size, ty):
        p = self.addr(p)
        key = (p.base, p.off)
        e = self.mem.get(key)
        if e is not None:
            v, n = e
            if n == size:
                return v
            if isinstance(v, int) and n > size:
                return sgn(v, 8 * size) if ty != "ptr" else v
            if n > size:
                return ("part", v, size)
        offs = self.mem.offsets(p.base)
        cells = sorted((o - p.off,) + self.mem[(p.base, o)] for o in offs if p.off <= o and o + self.mem[(p.base, o)][1] <= p.off + size)
        if cells:
            # a copy wider than the fields it covers
            return ("cells", size) + tuple(cells)
        if isinstance(p.base, tuple) and p.base[0] in ("alloca", "obj"):
            for o in offs:
                v, n = self.mem[(p.base, o)]
                if o < p.off < o + n and (p.base[0] == "alloca" or isinstance(v, int)):
                    if isinstance(v, int):
                        return sgn(uns(v, 8 * n) >> (8 * (p.off - o)), 8 * size)
                    return ("part", v, p.off - o, size)
        if (p.base, p.off) in self.table:
            v, n = self.table[(p.base, p.off)]
            if n == size:
                return v
        if self.loadm:
            v = self.loadm(self, p, size, ty)
            if v is not None:
                return v
        v = ("ld", p.base, p.off, ty, self.epoch)
        self.mem[key] = (v, size)
        return v

    def addr(self, p):
        if isinstance(p, Ptr):
            return p
        return Ptr(p, 0)

    def store(self, p, v, size):
        p = self.addr(p)
        for b, o in [(p.base, o) for o in self.mem.offsets(p.base)]:
            x, n = self.mem[(b, o)]
            if o < p.off + size and p.off < o + n and not (o == p.off and n == size):
                del self.mem[(b, o)]
                if type(x) is int and n > size and n <= 8:
                    # the bytes around the written ones stay
                    for lo, hi in ((o, p.off), (p.off + size, o + n)):
                        if lo < hi:
                            self.mem[(b, lo)] = (sgn(uns(x, 8 * n) >> (8 * (lo - o)), 8 * (hi - lo)), hi - lo)
        if isinstance(v, tuple) and v[0] == "cells" and v[1] == size:
            for o, x, n in v[2:]:
                self.mem[(p.base, p.off + o)] = (x, n)
            return
        self.mem[(p.base, p.off)] = (v, size)

    def havoc(self, args):
        """an opaque call with effects: memory it may reach becomes unknown"""
        esc = set()
        work = [a for a in args]
        while work:
            a = work.pop()
            if isinstance(a, Ptr):
                b = a.base
                if isinstance(b, tuple) and b[0] == "alloca" and b not in esc:
                    esc.add(b)
                    work += [v for (bb, o), (v, n) in self.mem.items() if bb == b]
        self.escaped |= esc
        self.epoch += 1
        for k in list(self.mem):
            b = k[0]
            if isinstance(b, tuple) and b[0] == "alloca" and b not in self.escaped:
                continue
            if self.keep and self.keep(k):
                continue
            del self.mem[k]

    # ---- traces
    def run(self):
        res = []
        stack = [()]  # decision prefixes
        while stack:
            pre = stack.pop()
            if len(res) >= self.max_traces:
                raise Undecided("too many traces")
            self.pre = list(pre)
            try:
                res.append(self.trace())
            except Fork as f:
                stack.append(pre + ((f.cond, False),))
                stack.append(pre + ((f.cond, True),))
        return [r for r in res if r is not None]

    def trace(self):
        self.env, self.mem, self.assume = {}, Mem(self.mem0), {}
        self.eqv = {}
        for k, v in self.pre:
            self.assume[k] = v
            if v and k[0] == "icmp-eq" and not sym(k[2]):
                self.eqv[k[1]] = k[2]
        self.escaped = set()
        self.epoch = 0
        self.fresh = 0
        self.events = []
        self.steps = 0
        self.depth = self.frame = self.frames = 0
        tr = Trace()
        tr.ret = None
        try:
            tr.end, tr.ret = self.loop(self.blocks, self.start)
        except Stop as s:
            tr.end = s.args[0] if s.args else "stop"
        except Truncated:
            self.truncated += 1
            return None
        tr.events, tr.assume, tr.mem, tr.env = self.events, dict(self.assume), self.mem, self.env
        return tr

    def enter(self, fn, args):
        """interpret a call of another function of the residual program in a frame of its own"""
        if self.depth > 40:
            raise Truncated()
        old = self.env, self.args, self.frame
        self.frames += 1
        self.depth += 1
        self.env, self.args, self.frame = {}, list(args) + [("undef", "arg")] * (fn.get("args", 0) - len(args)), self.frames
        try:
            end, ret = self.loop(fn["blocks"], 0)
        finally:
            self.env, self.args, self.frame = old
            self.depth -= 1
        if end != "ret":
            raise Stop(end)
        return ret if ret is not None else ("void",)

    def loop(self, blocks, start):
        count = {}
        b, prev = start, None
        top = self.depth == 0
        while True:
            if top and self.alive is not None and (b not in self.alive or b == self.start and prev is not None):
                return "left", None
            blk = blocks[b]
            count[b] = count.get(b, 0) + 1
            self.steps += 1
            if count[b] > self.visits or self.steps > self.max_steps:
                raise Truncated()
            if blk["phi"]:
                new = {}
                for p in blk["phi"]:
                    src = p["in"].get(str(prev))
                    new[p["id"]] = self.val(P(src)) if src is not None else ("phi", p["id"])
                self.env.update(new)
            for e in blk["ev"]:
                self.event(e, b, count[b])
            if "ret" in blk:
                return "ret", self.val(P(blk["ret"])) if blk["ret"] != "void" else None
            if "stop" in blk:
                return "unreachable", None
            if "switch" in blk:
                v = self.val(P(blk["switch"]))
                nxt = None
                if not sym(v):
                    nxt = blk["cases"].get(str(v), blk["default"])
                else:
                    for k, d in blk["cases"].items():
                        if self.truth(self.op("icmp-eq:64", [v, int(k)])):
                            nxt = d
                            break
                    if nxt is None:
                        nxt = blk["default"]
                prev, b = b, nxt
            elif "cond" in blk:
                c = self.truth(self.val(P(blk["cond"])))
                prev, b = b, blk["succ"][0 if c else 1]
            else:
                prev, b = b, blk["succ"][0]

    def event(self, e, b, n):
        if "ld" in e:
            self.env[e["ld"]] = self.load(self.val(P(e["ptr"])), e["size"], e["ty"])
        elif "st" in e:
            p, v = self.val(P(e["st"])), self.val(P(e["val"]))
            self.store(p, v, e["size"])
            self.events.append(("store", (p, v), None, e["loc"]))
        elif "alloca" in e:
            self.env[e["alloca"]] = Ptr(("alloca", e["alloca"]) if not self.frame else ("alloca", e["alloca"], self.frame))
        elif "call" in e:
            args = [self.val(P(a)) for a in e["args"]]
            name = e["call"]
            if name.startswith("llvm.mem"):
                self.memop(name, args)
                return
            if name == "indirect":
                fp = self.val(P(e["fp"]))
                if isinstance(fp, Ptr) and isinstance(fp.base, str) and fp.base.startswith("@") and fp.off == 0:
                    name = unesc(fp.base[1:])
                else:
                    args = [fp] + args
            r = self.callm(self, name, args, e) if self.callm else None
            if r is None and name in self.funcs:
                r = self.enter(self.funcs[name], args)
            if r is None and name.startswith(INTRIN):
                r = self.intrin(name, args)
            if r is None:
                if e.get("noreturn"):
                    self.events.append((name, tuple(args), None, e["loc"]))
                    raise Stop("noreturn")
                if e["eff"] == "none":
                    r = ("call", name) + tuple(args)
                else:
                    self.fresh += 1
                    r = ("call", name) + tuple(args) + (("#", self.epoch if e["eff"] == "read" else self.fresh),)
                    if e["eff"] == "any":
                        self.havoc(args)
            self.env[e["id"]] = r
            self.events.append((name, tuple(args), r, e["loc"]))

    def memop(self, name, args):
        dst, src, n = args[:3]
        dst = self.addr(dst)
        if not isinstance(n, int):
            self.havoc([dst])
            return
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            src = self.addr(src)
            ent = [(o - src.off,) + self.mem[(src.base, o)] for o in self.mem.offsets(src.base) if src.off <= o < src.off + n]
            if src.base in self.tab:
                have = {o for o, _, _ in ent}
                ent += [(o - src.off, v, k) for o, (v, k) in self.tab[src.base] if src.off <= o < src.off + n and o - src.off not in have]
            for k in [(dst.base, o) for o in self.mem.offsets(dst.base) if dst.off <= o < dst.off + n]:
                del self.mem[k]
            for o, v, k in ent:
                self.mem[(dst.base, dst.off + o)] = (v, k)
            self.copies = getattr(self, "copies", {})
            if not ent:
                self.mem[(dst.base, dst.off)] = (("copy", src.base, src.off, n), n)
        elif name.startswith("llvm.memset"):
            for k in [(dst.base, o) for o in self.mem.offsets(dst.base) if dst.off <= o < dst.off + n]:
                del self.mem[k]
            if type(src) is int:
                o = 0
                while o < n:
                    w = 8 if n - o >= 8 else 4 if n - o >= 4 else 1
                    self.mem[(dst.base, dst.off + o)] = (sgn(int.from_bytes(bytes([src & 255] * w), "little"), 8 * w), w)
                    o += w


class Lit:
    """wraps a constant so that Eval treats it as a term"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


_old = Eval.__call__


def _call(self, t):
    if isinstance(t, Lit):
        return t.v
    return _old(self, t)


Eval.__call__ = _call


def const_table(globals_):
    """constant data of a residual program (spec "globals") for Machine(table=...)"""
    t = {}
    for g, cells in globals_.items():
        for off, n, v in cells:
            if v == "zero":
                continue
            if isinstance(v, str):
                if v.startswith("@"):
                    v = Ptr(v)
                elif v.startswith("fp:"):
                    v = Eval(lambda a, b: None)(v)
                elif not v.startswith('"'):
                    continue
            t[(g, off)] = (v, n)
    return t
