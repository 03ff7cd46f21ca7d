"""Conversions follow source signedness and width."""
from _common import *
import lang
from langcheck import FEW, VALS, decide

TYPES = [("i8", True), ("i8", False), ("i16", True), ("i16", False), ("i32", True), ("i32", False), ("i64", True), ("i64", False), ("f32", True), ("f64", True)]
SRC = "cmmc/Frontend/EmitIR.cpp"
CONST = {"i32": [2**31 - 1], "i64": [-2**63, 2**63 - 1, 2**31, 255], "i8": [-128, 127], "i16": [-32768, 255], "f32": [16777217.0, 127.75, -128.5, 2.0**31, -2.0**31, 255.5], "f64": [127.75, -128.5, 2.0**31, -2.0**31, 2.0**40 + 0.5, 4294967295.0]}


def v(n, t, form="r"):
    return ("leaf", n, t[0], t[1], form)


def forms(n, t):
    return [v(n, t), v(n, t, "l")] + [v(n, t, ("c", x)) for x in FEW[t[0]] + CONST[t[0]]]


def nm(t):
    return ("" if t[1] or t[0][0] == "f" else "u") + t[0]


def body(c):
    c.units.update([SRC, "cmmc/Frontend/AST.hpp", "cmmc/IR/ConstantValue.cpp"])
    g = {}

    def add(key, d, envs=None, **kw):
        g.setdefault(key, []).append((d, envs, kw))

    for a in TYPES:
        for b in TYPES:
            k = "%s,%s" % (nm(a), nm(b))
            for x in forms("a", a):
                add("cast/" + k, ("cast", x) + b)
                add("castexpr/" + k, ("castexpr", x) + b)
                add("return/" + k, ("return", x), ret=b)
                add("assign/" + k, ("binary", "Assign", v("d", b, "l"), x))
                for w in TYPES[::3]:
                    add("cast twice/" + k, ("cast", ("cast", x) + b) + w)
                if a[0] != "f":
                    add("cast of a sum/" + k, ("cast", ("binary", "Add", x, v("b", ("i32", True)))) + b)
                    add("return of a sum/" + k, ("return", ("binary", "Mul", v("b", b), x)), ret=b)
        for x in forms("a", a):
            p, q = ("stmt", "P"), ("stmt", "Q")
            k = nm(a)
            add("condition/" + k, ("cast", x, "i1", False))
            add("condition/" + k, ("ifelse", x, p, q))
            add("condition/" + k, ("unary", "LogicalNot", x))
            add("condition/" + k, ("binary", "LogicalAnd", v("b", ("i32", True)), x))
            add("condition/" + k, ("binary", "LogicalOr", x, v("b", ("i32", True))))
            add("condition/" + k, ("select", x, v("b", ("i32", True)), v("c", ("i32", True))))
            if x[4] == "r":
                envs = [{"a": [u, w, 0]} for u in VALS[a[0]] for w in VALS[a[0]]]
                add("condition/" + k, ("while", x, p), envs)
                add("condition/" + k, ("dowhile", p, x), envs)
                add("condition/" + k, ("for", ("empty",), x, None, p), envs)
    n = decide(c, g, SRC + " (EmitContext::convertTo, getRValue)")
    if n < 20000:
        raise Broken("only %d inputs of conversions were compared" % n)


main("C03", "other", "the conversion routines are interpreted abstractly for every pair of source and destination type (width, signedness, floating point, truth value) and every place that converts (casts, "
     "returns, assignments, conditions), for values, variables and constants; the instructions or constants they build are compared with the C meaning on end and corner values", body)
