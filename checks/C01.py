"""Source operators lower to the operation the language defines."""
from _common import *
import lang
from langcheck import FEW, decide

TYPES = [("i8", True), ("i8", False), ("i16", True), ("i16", False), ("i32", True), ("i32", False), ("i64", True), ("i64", False), ("f32", True), ("f64", True)]
SRC = "cmmc/Frontend/EmitIR.cpp"


def v(n, t, form="r"):
    return ("leaf", n, t[0], t[1], form)


def forms(n, t, few=None):
    return [v(n, t)] + [v(n, t, ("c", x)) for x in FEW[t[0]][:few]]


def nm(t):
    return ("" if t[1] or t[0][0] == "f" else "u") + t[0]


def body(c):
    c.units.update([SRC, "cmmc/Frontend/AST.hpp", "cmmc/IR/ConstantValue.cpp"])
    g = {}

    def add(key, d, **kw):
        g.setdefault(key, []).append((d, None, kw))

    few = None if c.tier == "thorough" else 4
    for op in lang.ARITH + ("LogicalAnd", "LogicalOr"):
        for a in TYPES:
            for b in TYPES:
                for x in forms("a", a, few):
                    for y in forms("b", b, few):
                        add("%s/%s,%s" % (op, nm(a), nm(b)), ("binary", op, x, y))
                # operands that are variables
                add("%s/%s,%s" % (op, nm(a), nm(b)), ("binary", op, v("a", a, "l"), v("b", b, "l")))
    for op in ("Assign",) + tuple(x for x in lang.ARITH if x not in lang.CMP):
        for a in TYPES:
            for b in TYPES:
                for y in forms("b", b) + [v("b", b, "l")]:
                    d = ("binary", "Assign", v("a", a, "l"), y) if op == "Assign" else ("compound", op, v("a", a, "l"), y)
                    add("%s=/%s,%s" % ("" if op == "Assign" else op, nm(a), nm(b)), d)
    for op in ("LogicalNot", "Neg", "Positive", "BitwiseNot"):
        for a in TYPES:
            for x in forms("a", a) + [v("a", a, "l")]:
                add("%s/%s" % (op, nm(a)), ("unary", op, x))
                add("%s/%s" % (op, nm(a)), ("unary", "Neg", ("unary", op, x)))
    for op in ("PrefixInc", "PrefixDec", "SuffixInc", "SuffixDec"):
        for a in TYPES:
            add("%s/%s" % (op, nm(a)), ("incdec", op, v("a", a, "l")))
    for a in TYPES:
        for b in TYPES:
            for x in forms("a", a, 2):
                for y in forms("b", b, 2):
                    for k in (v("c", ("i32", True)), v("c", ("f32", True)), v("c", ("i32", True), ("c", 0)), v("c", ("i32", True), ("c", 4))):
                        add("select/%s,%s" % (nm(a), nm(b)), ("select", k, x, y))
                    add("comma/%s,%s" % (nm(a), nm(b)), ("comma", x, y))
    # an operation inside another one keeps type, order and side effects
    for o1 in ("Add", "Sub", "Div", "LessThan", "LogicalAnd", "ShiftRight"):
        for o2 in ("Sub", "Rem", "GreaterEqual", "LogicalOr", "Mul"):
            for a in (TYPES[0], TYPES[1], TYPES[4], TYPES[5], TYPES[7]):
                p, q, r = v("a", a), v("b", ("i32", True)), v("c", ("i32", False))
                add("%s of %s" % (o1, o2), ("binary", o1, ("binary", o2, p, q), r))
                add("%s of %s" % (o1, o2), ("binary", o1, r, ("binary", o2, q, p)))
    for a in (TYPES[0], TYPES[4], TYPES[8]):
        for e in (("incdec", "SuffixInc", v("a", a, "l")), ("binary", "Assign", v("a", a, "l"), v("b", ("i32", True))), ("compound", "Sub", v("a", a, "l"), v("b", ("i32", True)))):
            add("nested stores", ("binary", "Add", e, v("c", ("i32", True))))
            add("nested stores", ("binary", "Assign", v("d", ("i32", True), "l"), e))
            add("nested stores", ("binary", "LogicalOr", e, ("incdec", "PrefixDec", v("d", a, "l"))))
            add("nested stores", ("comma", e, v("d", a)))
    n = decide(c, g, SRC + " (emit of the operator)")
    if n < 100000:
        raise Broken("only %d inputs of operators were compared" % n)


main("C01", "other", "each operator's emit routine is interpreted abstractly on a syntax tree whose operands are values, variables or constants of each type; the instructions it builds (operation, operand order, "
     "operand types, conversions, folded constants) are compared with the C meaning of the tree on end and corner values, including result type, signedness, evaluation order and rejection", body)
