"""Meaning of the IR operations (the oracle), on signed Python integers / floats."""
import math
from terms import sgn, uns

I64MIN = -2**63
INTBIN = {
    "Add": lambda a, b, w: a + b, "Sub": lambda a, b, w: a - b, "Mul": lambda a, b, w: a * b,
    "SDiv": lambda a, b, w: None if b == 0 else tdiv(a, b), "SRem": lambda a, b, w: None if b == 0 else a - tdiv(a, b) * b,
    "UDiv": lambda a, b, w: None if b == 0 else uns(a, w) // uns(b, w), "URem": lambda a, b, w: None if b == 0 else uns(a, w) % uns(b, w),
    "And": lambda a, b, w: a & b, "Or": lambda a, b, w: a | b, "Xor": lambda a, b, w: a ^ b,
    "Shl": lambda a, b, w: a << uns(b, w) if uns(b, w) < w else None, "LShr": lambda a, b, w: uns(a, w) >> uns(b, w) if uns(b, w) < w else None,
    "AShr": lambda a, b, w: a >> uns(b, w) if uns(b, w) < w else None,
    "SMin": lambda a, b, w: min(a, b), "SMax": lambda a, b, w: max(a, b),
}
INTUN = {"Neg": lambda a, w: -a, "Abs": lambda a, w: abs(a)}


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def fdiv(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.nan
    if b == 0:
        return math.nan if a == 0 else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


FPBIN = {"FAdd": lambda a, b: a + b, "FSub": lambda a, b: a - b, "FMul": lambda a, b: a * b, "FDiv": fdiv}
FPUN = {"FNeg": lambda a: -a, "FAbs": abs}
ICMP = {
    "ICmpEqual": lambda a, b: a == b, "ICmpNotEqual": lambda a, b: a != b,
    "ICmpSignedLessThan": lambda a, b: a < b, "ICmpSignedLessEqual": lambda a, b: a <= b,
    "ICmpSignedGreaterThan": lambda a, b: a > b, "ICmpSignedGreaterEqual": lambda a, b: a >= b,
    "ICmpUnsignedLessThan": lambda a, b: uns(a, 64) < uns(b, 64), "ICmpUnsignedLessEqual": lambda a, b: uns(a, 64) <= uns(b, 64),
    "ICmpUnsignedGreaterThan": lambda a, b: uns(a, 64) > uns(b, 64), "ICmpUnsignedGreaterEqual": lambda a, b: uns(a, 64) >= uns(b, 64),
}
nanor = lambda f: (lambda a, b: math.isnan(a) or math.isnan(b) or f(a, b))
nanand = lambda f: (lambda a, b: not (math.isnan(a) or math.isnan(b)) and f(a, b))
FCMP = {
    "FCmpOrderedEqual": nanand(lambda a, b: a == b), "FCmpOrderedNotEqual": nanand(lambda a, b: a != b),
    "FCmpOrderedLessThan": nanand(lambda a, b: a < b), "FCmpOrderedLessEqual": nanand(lambda a, b: a <= b),
    "FCmpOrderedGreaterThan": nanand(lambda a, b: a > b), "FCmpOrderedGreaterEqual": nanand(lambda a, b: a >= b),
    "FCmpUnorderedEqual": nanor(lambda a, b: a == b), "FCmpUnorderedNotEqual": nanor(lambda a, b: a != b),
    "FCmpUnorderedLessThan": nanor(lambda a, b: a < b), "FCmpUnorderedLessEqual": nanor(lambda a, b: a <= b),
    "FCmpUnorderedGreaterThan": nanor(lambda a, b: a > b), "FCmpUnorderedGreaterEqual": nanor(lambda a, b: a >= b),
}
CASTS = {
    # name -> (source kind, destination kind, value)
    "SExt": ("s", "i", lambda v: v), "SignedTrunc": ("s", "i", lambda v: v), "ZExt": ("u", "i", lambda v: v), "UnsignedTrunc": ("u", "i", lambda v: v),
    "F2S": ("f", "i", lambda v: int(v)), "F2U": ("f", "i", lambda v: int(v)), "S2F": ("s", "f", float), "U2F": ("u", "f", float), "FCast": ("f", "f", lambda v: v),
}
