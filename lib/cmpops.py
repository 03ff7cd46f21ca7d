"""Truth sets of comparison conditions over the possible orderings of two operands."""
# orderings: for integers (signed order, unsigned order) pairs; for floats < = > u
ILT, IEQ, IGT = "lt", "eq", "gt"
INT_ORD = [(ILT, ILT), (ILT, IGT), (IEQ, IEQ), (IGT, ILT), (IGT, IGT)]
FP_ORD = ["lt", "eq", "gt", "un"]


def _rel(name, o):
    return {"Equal": o == "eq", "NotEqual": o in ("lt", "gt"), "LessThan": o == "lt", "LessEqual": o in ("lt", "eq"),
            "GreaterThan": o == "gt", "GreaterEqual": o in ("gt", "eq")}[name]


def truth(op):
    """frozenset of orderings in which the condition holds; None for an unknown name"""
    if op.startswith("ICmp"):
        r = op[4:]
        if r == "Equal":
            return frozenset(o for o in INT_ORD if o[0] == "eq")
        if r == "NotEqual":
            return frozenset(o for o in INT_ORD if o[0] != "eq")
        if r.startswith("Signed"):
            return frozenset(o for o in INT_ORD if _rel(r[6:], o[0]))
        if r.startswith("Unsigned"):
            return frozenset(o for o in INT_ORD if _rel(r[8:], o[1]))
    if op.startswith("FCmpOrdered"):
        return frozenset(o for o in FP_ORD if o != "un" and _rel(op[11:], o))
    if op.startswith("FCmpUnordered"):
        return frozenset(o for o in FP_ORD if o == "un" or _rel(op[13:], o))
    return None


def flip(o):
    f = {"lt": "gt", "gt": "lt", "eq": "eq", "un": "un"}
    return tuple(f[x] for x in o) if isinstance(o, tuple) else f[o]


def swapped(t):
    return frozenset(flip(o) for o in t)


def negated(t):
    return frozenset(INT_ORD if any(isinstance(o, tuple) for o in t) else FP_ORD) - t


def domain(op):
    return frozenset(INT_ORD if op.startswith("ICmp") else FP_ORD)
