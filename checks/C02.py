"""Control statements compile to the control flow the language defines."""
from _common import *
import random
from langcheck import decide, leaves

SRC = "cmmc/Frontend/EmitIR.cpp"
I32 = ("i32", True)


class Gen:
    def __init__(self, rnd, conds="simple"):
        self.r, self.n, self.k, self.conds = rnd, 0, 0, conds

    def leaf(self, ty=I32, form="r"):
        self.k += 1
        return ("leaf", "c%d" % self.k, ty[0], ty[1], form)

    def mark(self):
        self.n += 1
        return ("stmt", "S%d" % self.n)

    def cond(self, depth=1):
        x = self.r.random()
        if depth and x < .25:
            return ("binary", self.r.choice(("LogicalAnd", "LogicalOr")), self.cond(depth - 1), self.cond(depth - 1))
        if depth and x < .32:
            return ("unary", "LogicalNot", self.cond(depth - 1))
        if depth and x < .38:
            return ("binary", self.r.choice(("LessThan", "Equal", "NotEqual", "GreaterEqual")), self.leaf(), ("leaf", "k", "i32", True, ("c", self.r.choice((0, 1)))))
        if x < .43:
            return ("leaf", "k", "i32", True, ("c", self.r.choice((0, 1, 1))))
        if x < .47:
            return self.leaf(("f32", True))
        if depth and x < .52:
            return ("select", self.leaf(), self.cond(depth - 1), self.cond(depth - 1))
        return self.leaf()

    def stmt(self, depth, loop, brk):
        r = self.r
        x = r.random()
        if depth <= 0 or x < .12:
            c = ["mark"] * 4 + ["empty", "return"] + (["break"] * 2 if brk else []) + (["continue"] * 2 if loop else [])
            k = r.choice(c)
            if k == "mark":
                return self.mark()
            return ("return", self.leaf()) if k == "return" else (k,)
        k = r.choice(("scope", "scope", "if", "ifelse", "while", "dowhile", "for", "switch", "expr"))
        if k == "scope":
            return ("scope",) + tuple(self.stmt(depth - 1, loop, brk) for _ in range(r.randrange(0, 4)))
        if k == "if":
            return ("ifelse", self.cond(), self.stmt(depth - 1, loop, brk), None)
        if k == "ifelse":
            return ("ifelse", self.cond(), self.stmt(depth - 1, loop, brk), self.stmt(depth - 1, loop, brk))
        if k == "while":
            return ("while", self.cond(), self.stmt(depth - 1, True, True))
        if k == "dowhile":
            return ("dowhile", self.stmt(depth - 1, True, True), self.cond())
        if k == "for":
            return ("for", r.choice((("empty",), self.mark())), r.choice((self.cond(), self.cond(), None)), r.choice((self.mark(), self.leaf(), None)), self.stmt(depth - 1, True, True))
        if k == "expr":
            return ("binary", r.choice(("LogicalAnd", "LogicalOr")), self.cond(), ("binary", "Assign", self.leaf(form="l"), self.leaf()))
        ty = r.choice((I32, I32, I32, ("i8", True), ("i64", True), ("i32", False), ("i16", False)))
        labels = r.sample([0, 1, 2, 3, 7, -1 if ty[1] else 9], r.randrange(0, 4))
        if r.random() < .5:
            labels.insert(r.randrange(0, len(labels) + 1), None)
        body = []
        if r.random() < .2:
            body.append(self.mark())
        for l in labels:
            body.append(("case", None if l is None else ("leaf", "k", "i32", True, ("c", l))))
            for _ in range(r.randrange(0, 3)):
                body.append(self.stmt(depth - 1, loop, True))
            if r.random() < .5:
                body.append(("break",))
        return ("switch", self.leaf(ty), ("scope",) + tuple(body))


def keys(d, r=None):
    """leaves that are the key of a switch"""
    r = set() if r is None else r
    if isinstance(d, tuple):
        if d and d[0] == "switch":
            r.add(d[1][1])
        if not d or d[0] != "leaf":
            for x in d:
                keys(x, r)
    return r


def scripts(rnd, d, n):
    L, K = leaves(d), keys(d)
    out = []
    for i in range(n):
        env = {}
        for k, x in L.items():
            vals = [0, 1, 2, 3, 7, 44, -1 if x[3] else 9] if k in K else [0, 0, 1, 1, 2, -1] if x[2] != "f32" else [0.0, 0.5, -1.0, -0.0, 1.0]
            m = rnd.randrange(1, 5)
            l = [rnd.choice(vals) for _ in range(m)]
            if i == 0:
                l = [vals[0]]
            elif i == 1 and k not in K:
                l = [vals[-2]]
            elif rnd.random() < .8 and k not in K:
                l.append(vals[0])
            env[k] = l
        out.append(env)
    return out


def basic(g):
    """every statement form around every simple statement, twice nested"""
    simple = {"a statement": ("stmt", "P"), "empty": ("empty",), "break": ("break",), "continue": ("continue",), "return": ("return", ("leaf", "r", "i32", True, "r")), "nothing": ("scope",)}
    c = lambda n: ("leaf", n, "i32", True, "r")
    K = lambda v: ("leaf", "k", "i32", True, ("c", v))
    forms = {
        "if": lambda s, n: ("ifelse", c("i" + n), s, None), "if-else": lambda s, n: ("ifelse", c("i" + n), s, ("stmt", "E" + n)), "else": lambda s, n: ("ifelse", c("i" + n), ("stmt", "T" + n), s),
        "while": lambda s, n: ("while", c("w" + n), s), "do": lambda s, n: ("dowhile", s, c("d" + n)), "for": lambda s, n: ("for", ("stmt", "I" + n), c("f" + n), ("stmt", "N" + n), s),
        "endless for": lambda s, n: ("for", ("empty",), None, ("stmt", "N" + n), ("scope", ("ifelse", c("f" + n), ("stmt", "G" + n), ("break",)), s)),
        "while true": lambda s, n: ("while", K(1), ("scope", ("ifelse", c("f" + n), ("break",), None), s)), "while false": lambda s, n: ("while", K(0), s), "do false": lambda s, n: ("dowhile", s, K(0)),
        "switch": lambda s, n: ("switch", c("s" + n), ("scope", ("case", K(1)), s, ("stmt", "A" + n), ("break",), ("case", K(2)), ("stmt", "B" + n))),
        "switch default": lambda s, n: ("switch", c("s" + n), ("scope", ("case", K(1)), ("stmt", "A" + n), ("case", None), s, ("stmt", "D" + n), ("case", K(2)), ("stmt", "B" + n))),
        "default last": lambda s, n: ("switch", c("s" + n), ("scope", ("case", K(1)), ("break",), ("case", K(2)), ("case", None), s)),
        "default first": lambda s, n: ("switch", c("s" + n), ("scope", ("case", None), s, ("case", K(1)), ("stmt", "A" + n))),
        "empty switch": lambda s, n: ("scope", ("switch", c("s" + n), ("scope",)), s), "two": lambda s, n: ("scope", ("stmt", "A" + n), s, ("stmt", "B" + n)),
    }
    for f, mk in forms.items():
        for sn, s in simple.items():
            d = mk(s, "1")
            g.setdefault(f, []).append(("scope", d, ("stmt", "Z")))
            for f2, mk2 in forms.items():
                g.setdefault("%s in %s" % (f, f2), []).append(("scope", mk2(d, "2"), ("stmt", "Z")))
                g.setdefault("%s in %s" % (f, f2), []).append(("scope", mk2(("scope", d, ("stmt", "Y")), "2"), ("stmt", "Z")))
    g["switch"] += [("switch", ("leaf", "s", t, s, "r"), ("scope", ("case", K(v)), ("stmt", "A"), ("case", K(w)), ("stmt", "B"), ("case", None), ("stmt", "D")))
                    for t, s in (("i8", True), ("i8", False), ("i16", True), ("i64", True), ("i64", False), ("i32", False)) for v, w in ((0, 1), (5, 3), (7, 2))]
    g["misplaced"] = [("break",), ("continue",), ("scope", ("ifelse", c("i"), ("break",), None)), ("switch", c("s"), ("scope", ("case", K(1)), ("continue",))), ("case", K(1)), ("scope", ("case", None)),
                      ("scope", ("while", c("w"), ("stmt", "P")), ("break",)), ("scope", ("switch", c("s"), ("scope", ("case", K(1)))), ("break",)), ("scope", ("for", ("empty",), c("w"), None, ("stmt", "P")), ("continue",)),
                      ("scope", ("dowhile", ("stmt", "P"), c("w")), ("continue",)), ("scope", ("switch", c("s"), ("scope", ("case", K(1)))), ("case", K(2)))]
    g["repeated label"] = [("switch", c("s"), ("scope", ("case", K(1)), ("stmt", "A"), ("case", K(1)), ("stmt", "B"))), ("switch", c("s"), ("scope", ("case", None), ("stmt", "A"), ("case", None), ("stmt", "B"))),
                           ("switch", c("s"), ("scope", ("case", None), ("case", None), ("stmt", "B"))), ("switch", c("s"), ("scope", ("case", K(1)), ("case", None), ("case", K(2)), ("case", None))),
                           ("switch", ("leaf", "s", "i8", True, "r"), ("scope", ("case", K(300)), ("stmt", "A"), ("case", K(3)), ("stmt", "B"))),
                           ("switch", c("s"), ("scope", ("case", K(1)), ("case", K(2)), ("case", K(1)))), ("switch", ("leaf", "s", "f32", True, "r"), ("scope", ("case", K(1)))),
                           ("switch", c("s"), ("scope", ("case", c("t")), ("stmt", "A")))]


def body(c):
    c.units.update([SRC, "cmmc/Frontend/AST.hpp"])
    g = {}
    basic(g)
    rnd = random.Random(7)
    thorough = c.tier == "thorough"
    for depth, n in ((2, 300), (3, 900), (4, 600)) if not thorough else ((2, 1000), (3, 6000), (4, 6000), (5, 2000)):
        for i in range(n):
            gen = Gen(rnd)
            g.setdefault("nested to depth %d/%d" % (depth, i % 20), []).append(("scope", gen.stmt(depth, False, False), gen.mark()))
    items = {k: [(d, scripts(rnd, d, 10 if not thorough else 30), {}) for d in l] for k, l in g.items()}
    n = decide(c, items, SRC + " (emit of the statement)")
    if n < 10000:
        raise Broken("only %d runs of statements were compared" % n)


main("C02", "other", "each statement's emit routine is interpreted abstractly on syntax trees (every form around every simple statement and inside every other form, and generated nestings); the control flow of the "
     "blocks and branches it builds is compared with the C meaning of the tree under scripted condition values: which parts run, in which order, how often, how it leaves, and which trees are rejected", body)
