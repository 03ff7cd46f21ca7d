"""Meaning of generic and target machine instructions, from the ISA manuals, on concrete register contents.
Target instructions are keyed by the assembly text they print, so a wrong operand order in the
printed form is a wrong instruction. Registers hold signed integers (canonical for their type:
sign-extended, Bool 0/1) or, for floating point, the 32-bit pattern (unsigned)."""
import math
import re
import struct
from terms import sgn, uns
from semantics import tdiv

BITS = {"Bool": 1, "Int8": 8, "Int16": 16, "Int32": 32, "Int64": 64}


class Undef(Exception):
    """the operation has no defined result on these values"""


class Unknown(Exception):
    """instruction or operand without a model"""


def b2f(b):
    return struct.unpack("<f", struct.pack("<I", b & 0xffffffff))[0]


def f2b(x):
    """round a double (exact value) to binary32"""
    try:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError:
        return 0xff800000 if x < 0 else 0x7f800000


def isnan(b):
    return (b & 0x7fffffff) > 0x7f800000


def canon(v, t):
    if t == "Bool":
        return v & 1
    return sgn(v, BITS[t])


def fop(f):
    def g(a, b):
        x, y = b2f(a), b2f(b)
        try:
            r = f(x, y)
        except ZeroDivisionError:
            r = math.nan if x == 0 or math.isnan(x) else math.copysign(math.inf, x) * math.copysign(1, y)
        except (OverflowError, ValueError):
            r = math.nan
        return f2b(r)
    return g


FADD, FSUB, FMUL, FDIV = fop(lambda x, y: x + y), fop(lambda x, y: x - y), fop(lambda x, y: x * y), fop(lambda x, y: x / y)


def frac(b):
    from fractions import Fraction
    return Fraction(b2f(b))


def ffma(a, b, c, nm=False, nc=False):
    """(-1)^nm * a*b + (-1)^nc * c, rounded once"""
    if any((x & 0x7f800000) == 0x7f800000 for x in (a, b, c)):
        p = b2f(a) * b2f(b) if not (isnan(a) or isnan(b)) else math.nan
        r = (-p if nm else p) + (-b2f(c) if nc else b2f(c))
        return f2b(r)
    p = frac(a) * frac(b)
    v = (-p if nm else p) + (-frac(c) if nc else frac(c))
    if v == 0:
        ps = (a ^ b) >> 31 ^ nm
        cs = c >> 31 ^ nc
        return 0x80000000 if p == 0 and ps and cs else 0
    return round_frac(v)


def round_frac(v):
    s = v < 0
    v = abs(v)
    e = max(v.numerator.bit_length() - v.denominator.bit_length(), -126)
    if v >= 2 ** (e + 1):
        e += 1
    if v < 2 ** e and e > -126:
        e -= 1
    from fractions import Fraction
    q = v / (Fraction(2) ** (e - 23))
    n = round(q)   # ties to even
    x = float(n) * 2.0 ** (e - 23)
    return f2b(-x if s else x)


def toint(b, lo, hi, nanv):
    if isnan(b):
        return nanv
    x = b2f(b)
    if math.isinf(x):
        return hi if x > 0 else lo
    return min(max(int(x), lo), hi)


# ---- generic instructions: (values of the used operands, types) -> value
def _shift(f):
    def g(a, b, w):
        if not 0 <= uns(b, w) < w:
            raise Undef()
        return f(a, b, w)
    return g


def _nz(f):
    def g(a, b, w):
        if b == 0 or (a == -(1 << (w - 1)) and b == -1):
            raise Undef()
        return f(a, b, w)
    return g


GBIN = {
    "Add": lambda a, b, w: a + b, "Sub": lambda a, b, w: a - b, "Mul": lambda a, b, w: a * b,
    "And": lambda a, b, w: a & b, "Or": lambda a, b, w: a | b, "Xor": lambda a, b, w: a ^ b,
    "Shl": _shift(lambda a, b, w: a << b), "LShr": _shift(lambda a, b, w: uns(a, w) >> b), "AShr": _shift(lambda a, b, w: a >> b),
    "UDiv": _nz(lambda a, b, w: uns(a, w) // uns(b, w)), "URem": _nz(lambda a, b, w: uns(a, w) % uns(b, w)),
    "SDiv": _nz(lambda a, b, w: tdiv(a, b)), "SRem": _nz(lambda a, b, w: a - tdiv(a, b) * b),
    "SMin": lambda a, b, w: min(a, b), "SMax": lambda a, b, w: max(a, b),
}
GFBIN = {"FAdd": FADD, "FSub": FSUB, "FMul": FMUL, "FDiv": FDIV}


def icmp(op, a, b, w):
    n = op[4:]
    if n in ("Equal", "NotEqual"):
        return (a == b) == (n == "Equal")
    if n.startswith("Unsigned"):
        a, b, n = uns(a, w), uns(b, w), n[8:]
    else:
        n = n[6:]
    return {"LessThan": a < b, "LessEqual": a <= b, "GreaterThan": a > b, "GreaterEqual": a >= b}[n]


def fcmp(op, a, b):
    un = isnan(a) or isnan(b)
    o, n = (False, op[11:]) if op.startswith("FCmpOrdered") else (True, op[13:])
    if un:
        return o
    x, y = b2f(a), b2f(b)
    return {"Equal": x == y, "NotEqual": x != y, "LessThan": x < y, "LessEqual": x <= y, "GreaterThan": x > y, "GreaterEqual": x >= y}[n]


# ---- RISC-V (RV64GC + Zba + Zbb), keyed by the printed form; d: destination, s: register source, i: immediate, l: label
def _w(f):
    return lambda *a: sgn(f(*a), 32)


def _u32(x):
    return x & 0xffffffff


def _u64(x):
    return x & 0xffffffffffffffff


def _x(f):
    return lambda *a: sgn(f(*a), 64)


def _clz(x, n):
    return n - x.bit_length()


def _ctz(x, n):
    return n if x == 0 else (x & -x).bit_length() - 1


def _ror(x, n, w):
    n %= w
    x &= (1 << w) - 1
    return (x >> n | x << (w - n)) & ((1 << w) - 1)


def _fmin(a, b, mx):
    if isnan(a) or isnan(b):
        return 0x7fc00000 if isnan(a) and isnan(b) else (b if isnan(a) else a)
    x, y = b2f(a), b2f(b)
    if x == y:
        return (a & b if mx else a | b) if x == 0 else a
    return a if (x > y) == mx else b


def _div(a, b, w):
    if b == 0:
        return -1
    return sgn(tdiv(a, b), w)


def _rem(a, b, w):
    if b == 0:
        return a
    return a - tdiv(a, b) * b


RV = {
    "add": _x(lambda a, b: a + b), "sub": _x(lambda a, b: a - b), "and": _x(lambda a, b: a & b), "or": _x(lambda a, b: a | b), "xor": _x(lambda a, b: a ^ b),
    "sll": _x(lambda a, b: a << (b & 63)), "srl": _x(lambda a, b: _u64(a) >> (b & 63)), "sra": _x(lambda a, b: a >> (b & 63)),
    "slt": lambda a, b: int(a < b), "sltu": lambda a, b: int(_u64(a) < _u64(b)),
    "addw": _w(lambda a, b: a + b), "subw": _w(lambda a, b: a - b), "sllw": _w(lambda a, b: a << (b & 31)),
    "srlw": _w(lambda a, b: _u32(a) >> (b & 31)), "sraw": _w(lambda a, b: sgn(a, 32) >> (b & 31)),
    "mul": _x(lambda a, b: a * b), "mulw": _w(lambda a, b: a * b), "mulh": _x(lambda a, b: a * b >> 64),
    "mulhu": _x(lambda a, b: _u64(a) * _u64(b) >> 64), "mulhsu": _x(lambda a, b: a * _u64(b) >> 64),
    "div": lambda a, b: _div(a, b, 64), "rem": lambda a, b: _rem(a, b, 64),
    "divu": _x(lambda a, b: -1 if b == 0 else _u64(a) // _u64(b)), "remu": _x(lambda a, b: a if b == 0 else _u64(a) % _u64(b)),
    "divw": lambda a, b: _div(sgn(a, 32), sgn(b, 32), 32), "remw": lambda a, b: _rem(sgn(a, 32), sgn(b, 32), 32),
    "divuw": _w(lambda a, b: -1 if _u32(b) == 0 else _u32(a) // _u32(b)), "remuw": _w(lambda a, b: a if _u32(b) == 0 else _u32(a) % _u32(b)),
    "add.uw": _x(lambda a, b: _u32(a) + b),
    "andn": _x(lambda a, b: a & ~b), "orn": _x(lambda a, b: a | ~b), "xnor": _x(lambda a, b: ~(a ^ b)),
    "min": min, "max": max, "minu": lambda a, b: a if _u64(a) < _u64(b) else b, "maxu": lambda a, b: a if _u64(a) > _u64(b) else b,
    "rol": _x(lambda a, b: _ror(a, 64 - (b & 63), 64)), "ror": _x(lambda a, b: _ror(a, b & 63, 64)),
    "rolw": _w(lambda a, b: _ror(a, 32 - (b & 31), 32)), "rorw": _w(lambda a, b: _ror(a, b & 31, 32)),
    "sext.b": lambda a: sgn(a, 8), "sext.h": lambda a: sgn(a, 16), "sext.w": lambda a: sgn(a, 32),
    "zext.h": lambda a: a & 0xffff, "zext.w": lambda a: a & 0xffffffff,
    "clz": lambda a: _clz(_u64(a), 64), "clzw": lambda a: _clz(_u32(a), 32), "ctz": lambda a: _ctz(_u64(a), 64), "ctzw": lambda a: _ctz(_u32(a), 32),
    "cpop": lambda a: bin(_u64(a)).count("1"), "cpopw": lambda a: bin(_u32(a)).count("1"),
    "rev8": _x(lambda a: int.from_bytes(_u64(a).to_bytes(8, "little"), "big")),
    "orc.b": _x(lambda a: sum((0xff if _u64(a) >> 8 * k & 0xff else 0) << 8 * k for k in range(8))),
    "fadd.s": FADD, "fsub.s": FSUB, "fmul.s": FMUL, "fdiv.s": FDIV,
    "fmin.s": lambda a, b: _fmin(a, b, False), "fmax.s": lambda a, b: _fmin(a, b, True),
    "fneg.s": lambda a: a ^ 0x80000000, "fabs.s": lambda a: a & 0x7fffffff, "fmv.s": lambda a: a,
    "fmv.x.w": lambda a: sgn(a, 32), "fmv.w.x": lambda a: a & 0xffffffff,
    "feq.s": lambda a, b: int(fcmp("FCmpOrderedEqual", a, b)), "flt.s": lambda a, b: int(fcmp("FCmpOrderedLessThan", a, b)),
    "fle.s": lambda a, b: int(fcmp("FCmpOrderedLessEqual", a, b)),
    "fcvt.s.w": lambda a: f2b_int(sgn(a, 32)), "fcvt.s.wu": lambda a: f2b_int(_u32(a)),
    "fmadd.s": lambda a, b, c: ffma(a, b, c), "fmsub.s": lambda a, b, c: ffma(a, b, c, False, True),
    "fnmadd.s": lambda a, b, c: ffma(a, b, c, True, True), "fnmsub.s": lambda a, b, c: ffma(a, b, c, True, False),
}
for _k in (1, 2, 3):
    RV["sh%dadd" % _k] = _x(lambda a, b, k=_k: (a << k) + b)
    RV["sh%dadd.uw" % _k] = _x(lambda a, b, k=_k: (_u32(a) << k) + b)
RVI = {"addi": "add", "andi": "and", "ori": "or", "xori": "xor", "slti": "slt", "sltiu": "sltu", "addiw": "addw",
       "slli": "sll", "srli": "srl", "srai": "sra", "slliw": "sllw", "srliw": "srlw", "sraiw": "sraw", "rori": "ror", "roriw": "rorw"}


def f2b_int(v):
    """integer to binary32, rounded to nearest even (v fits in 64 bits)"""
    from fractions import Fraction
    return round_frac(Fraction(v)) if v else 0


IMM12 = (-2048, 2047)
RV_IMM = {k: IMM12 for k in ("addi", "andi", "ori", "xori", "slti", "sltiu", "addiw")}
RV_IMM.update({k: (0, 63) for k in ("slli", "srli", "srai", "rori", "slli.uw")})
RV_IMM.update({k: (0, 31) for k in ("slliw", "srliw", "sraiw", "roriw")})
RV_IMM.update({"lui": (0, 0xfffff), "auipc": (0, 0xfffff)})
RV_LOAD = {"lb": (1, True), "lh": (2, True), "lw": (4, True), "ld": (8, True), "lbu": (1, False), "lhu": (2, False), "lwu": (4, False), "flw": (4, False)}
RV_STORE = {"sb": 1, "sh": 2, "sw": 4, "sd": 8, "fsw": 4}
RV_BRANCH = {"beq": "ICmpEqual", "bne": "ICmpNotEqual", "blt": "ICmpSignedLessThan", "ble": "ICmpSignedLessEqual", "bgt": "ICmpSignedGreaterThan",
             "bge": "ICmpSignedGreaterEqual", "bltu": "ICmpUnsignedLessThan", "bleu": "ICmpUnsignedLessEqual", "bgtu": "ICmpUnsignedGreaterThan",
             "bgeu": "ICmpUnsignedGreaterEqual"}
for _k in [k for k in RV if not k.startswith(("f", "sext"))]:
    RV_IMM.setdefault(_k, None)


# ---- MIPS32 (release 1 with conditional moves), registers hold signed 32-bit integers
def _s(f):
    return lambda *a: sgn(f(*a), 32)


MIPS = {
    "addu": _s(lambda a, b: a + b), "subu": _s(lambda a, b: a - b), "and": _s(lambda a, b: a & b), "or": _s(lambda a, b: a | b),
    "xor": _s(lambda a, b: a ^ b), "nor": _s(lambda a, b: ~(a | b)),
    "sllv": _s(lambda a, b: a << (b & 31)), "srlv": _s(lambda a, b: _u32(a) >> (b & 31)), "srav": _s(lambda a, b: a >> (b & 31)),
    "slt": lambda a, b: int(a < b), "sltu": lambda a, b: int(_u32(a) < _u32(b)),
    "add.s": FADD, "sub.s": FSUB, "mul.s": FMUL, "div.s": FDIV,
    "abs.s": lambda a: a & 0x7fffffff, "neg.s": lambda a: a ^ 0x80000000, "mov.s": lambda a: a,
    "cvt.s.w": lambda a: f2b_int(sgn(a, 32)), "move": lambda a: a,
}
MIPSI = {"addiu": ("addu", -32768, 32767), "andi": ("and", 0, 65535), "ori": ("or", 0, 65535), "xori": ("xor", 0, 65535),
         "slti": ("slt", -32768, 32767), "sltiu": ("sltu", -32768, 32767), "sll": ("sllv", 0, 31), "srl": ("srlv", 0, 31), "sra": ("srav", 0, 31)}
MIPS_LOAD = {"lb": (1, True), "lbu": (1, False), "lh": (2, True), "lhu": (2, False), "lw": (4, True), "lwc1": (4, False)}
MIPS_STORE = {"sb": 1, "sh": 2, "sw": 4, "swc1": 4}
MIPS_FCMP = {"c.eq.s": "FCmpOrderedEqual", "c.ueq.s": "FCmpUnorderedEqual", "c.olt.s": "FCmpOrderedLessThan", "c.ole.s": "FCmpOrderedLessEqual",
             "c.ult.s": "FCmpUnorderedLessThan", "c.ule.s": "FCmpUnorderedLessEqual"}
MIPS_BRANCH0 = {"bgez": lambda a: a >= 0, "bgtz": lambda a: a > 0, "blez": lambda a: a <= 0, "bltz": lambda a: a < 0}


def template(fmt):
    """printed form of an instruction -> (text with $ for operands, operand indices in print order)"""
    t = "".join(x if isinstance(x, str) else "$" for x in fmt)
    return re.sub(r"\s+", " ", t).strip(), [x for x in fmt if not isinstance(x, str)]


class Memory:
    """initial contents a fixed function of the address; records stores in order"""

    def __init__(self, seed=0, truth=False, bits=64):
        self.seed, self.w, self.stores = seed, {}, []
        self.mask = (1 << bits) - 1
        self.truth = truth    # every byte is a truth value

    def byte(self, a):
        a &= self.mask
        if a in self.w:
            return self.w[a]
        h = (a * 0x9E3779B97F4A7C15 + self.seed * 0x85ebca6b + 0x1234567) & 0xffffffffffffffff
        h ^= h >> 29
        return h >> 17 & (1 if self.truth else 0xff)

    def load(self, a, n, signed):
        return int.from_bytes(bytes(self.byte(a + k) for k in range(n)), "little", signed=signed)

    def store(self, a, n, v):
        for k in range(n):
            self.w[(a + k) & self.mask] = v >> (8 * k) & 0xff
        self.stores.append((a & self.mask, n, v & ((1 << 8 * n) - 1)))
