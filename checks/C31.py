"""Integer ranges computed for values contain every value they can have."""
from _common import *
import itertools
import multiprocessing
import time
from absint import Machine, Ptr
from irtypes import functions
from semantics import INTBIN
from terms import Undecided, Trap, sgn, uns

SRC = "Analysis/IntegerRange.cpp"
OPS = {"Add": "*a + *b", "Sub": "*a - *b", "Mul": "*a * *b", "SDiv": "a->sdiv(*b)", "UDiv": "a->udiv(*b)", "SRem": "a->srem(*b)", "URem": "a->urem(*b)", "And": "*a & *b", "Or": "*a | *b", "Xor": "*a ^ *b",
       "Shl": "a->shl(*b)", "LShr": "a->lshr(*b)", "AShr": "a->ashr(*b)", "SMax": "a->smax(*b)", "SMin": "a->smin(*b)", "union": "a->unionSet(*b)", "intersection": "a->intersectSet(*b)"}
UN = {"Abs": "a->abs()", "Neg": "a->neg()"}
FIELDS = ["knownZeros", "knownOnes", "minUnsignedValue", "maxUnsignedValue", "minSignedValue", "maxSignedValue"]
H = '#include <cmmc/Analysis/IntegerRange.hpp>\n#include <new>\nusing namespace cmmc;\nusing R = IntegerRange;\n' + "".join(
    'extern "C" void vk_%s(R* r, const R* a, const R* b) { *r = %s; }\n' % x for x in OPS.items()) + "".join(
    'extern "C" void vk_%s(R* r, const R* a) { *r = %s; }\n' % x for x in UN.items()) + "".join(
    'extern "C" int64_t vk_%s(const R* a) { return (int64_t)a->%s(); }\n' % (x, x) for x in FIELDS) + '''
extern "C" void vk_signed(R* r, int64_t lo, int64_t hi) { new(r) R(); r->setSignedRange(lo, hi); r->sync(); }
extern "C" void vk_unsigned(R* r, uint64_t lo, uint64_t hi) { new(r) R(); r->setUnsignedRange(lo, hi); r->sync(); }
extern "C" void vk_bits(R* r, uint32_t z, uint32_t o) { new(r) R(); r->setKnownBits(z, o); r->sync(); }
extern "C" void vk_all(R* r, int64_t a, int64_t b, uint64_t c, uint64_t d, uint32_t z, uint32_t o) { new(r) R(); r->setSignedRange(a, b); r->setUnsignedRange(c, d); r->setKnownBits(z, o); r->sync(); }
extern "C" void vk_const(R* r, int64_t a) { new(r) R(a); }
extern "C" void vk_nonneg(R* r) { *r = R::getNonNegative(); }
extern "C" int vk_isnn(const R* a) { return a->isNonNegative(); }
extern "C" int vk_ispos(const R* a) { return a->isPositive(); }
extern "C" int vk_meets(const R* a, const R* b) { return a->intersectWith(*b); }
extern "C" int vk_hasconst(const R* a) { return a->inferConstant().has_value(); }
extern "C" int64_t vk_constant(const R* a) { auto c = a->inferConstant(); return c ? *c : 0; }
extern "C" uint32_t vk_suffix(const R* a) { return a->inferSuffix().first; }
extern "C" uint32_t vk_suffixlen(const R* a) { return a->inferSuffix().second; }
'''
MIN, MAX = -2**31, 2**31 - 1
UMAX = 2**32 - 1


class Ranges:
    def __init__(self):
        bc = harness("ranges", H)
        if bc is None:
            raise Broken("the interface of IntegerRange was not recognised")
        self.f = functions(run_tool("spec", {"modules": [bc] + bitcode([SRC]), "root": "^vk_", "opaque": [], "queries": [{"id": "x"}], "cfg": True}))
        self.memo = {}
        o = {}
        for n in FIELDS:
            ts = [t for t in Machine(self.f["vk_" + n], None, [Ptr("A")]).run() if t.end == "ret"]
            s = {x for x in loads(ts[0].ret) if x[1] == "A"}
            if len(s) != 1:
                raise Broken("layout of IntegerRange not recognised")
            x = s.pop()
            o[n] = (x[2], {"i32": 4, "i64": 8}[x[3]])
        self.o = o

    def run(self, fn, ranges, ints=(), ret=True):
        """fn(result?, ranges..., ints...)"""
        k = (fn, ranges, tuple(ints))
        if k in self.memo:
            return self.memo[k]
        mem, args = {}, []
        if ret:
            args.append(Ptr(("obj", "r")))
        for i, r in enumerate(ranges):
            b = ("obj", "a%d" % i)
            for n, v in zip(FIELDS, r):
                p, s = self.o[n]
                mem[(b, p)] = (sgn(v, 8 * s), s)
            args.append(Ptr(b))
        m = Machine(self.f["vk_" + fn], lambda *a: None, args + list(ints), funcs=self.f, visits=200, max_steps=20000, mem0=mem, max_traces=4)
        ts = [t for t in m.run() if t.end == "ret"]
        if len(ts) != 1:
            raise Undecided("result of %s not determined" % fn)
        if ret:
            out = []
            for n in FIELDS:
                p, s = self.o[n]
                v = ts[0].mem.get((("obj", "r"), p))
                if v is None or not isinstance(v[0], int):
                    raise Undecided("result of %s not determined (%s)" % (fn, n))
                out.append(uns(v[0], 8 * s) if n[0] == "k" or "Unsigned" in n else v[0])
            r = tuple(out)
        else:
            r = ts[0].ret
            if not isinstance(r, int):
                raise Undecided("result of %s not determined" % fn)
        self.memo[k] = r
        return r


def loads(x):
    if isinstance(x, tuple):
        if x and x[0] == "ld":
            yield x
        for y in x:
            yield from loads(y)


def within(v, r):
    z, o, ul, uh, sl, sh = r
    u = v & UMAX
    return sl <= v <= sh and ul <= u <= uh and not u & z and not ~u & o & UMAX


def show(r):
    z, o, ul, uh, sl, sh = r
    return "signed [%d,%d] unsigned [%d,%d] zeros %#x ones %#x" % (sl, sh, ul, uh, z, o)


BASE = sorted({s * x + d for x in (0, 1, 2, 3, 5, 8, 10, 31, 32, 100, 255, 256, 4096, 65535, 65536, 0x12345678, 0x55555555, 2**30, 2**31 - 1) for s in (1, -1) for d in (-1, 0, 1)} | {MIN, MIN + 1})
BASE = [v for v in BASE if MIN <= v <= MAX]


def members(r, cap=14):
    """values of a range: the ends, and values spread between them"""
    z, o, ul, uh, sl, sh = r
    cand = set(BASE) | {x + d for x in (sl, sh, sgn(ul & UMAX, 32), sgn(uh & UMAX, 32)) for d in (-2, -1, 0, 1, 2)} | {sgn((v & ~z & UMAX) | o, 32) for v in BASE}
    l = sorted(v for v in cand if MIN <= v <= MAX and within(v, r))
    if len(l) > cap:
        keep = set(l[:3] + l[-3:] + [v for v in l if -2 <= v <= 2])
        rest = [v for v in l if v not in keep]
        step = max(1, len(rest) // max(1, cap - len(keep)))
        l = sorted(keep | set(rest[::step]))
    return l


SIGNED = [(MIN, MAX), (0, MAX), (MIN, -1), (1, MAX), (MIN, 0), (0, 0), (1, 1), (-1, -1), (MIN, MIN), (MAX, MAX), (0, 1), (-1, 1), (-1, 0), (0, 5), (1, 5), (-5, -1), (-5, 5), (2, 100), (-100, 100), (-100, -3), (MIN, 5), (-5, MAX),
          (0, 31), (1, 31), (3, 40), (-3, 7), (16, 16), (31, 31), (0, 65535), (65536, MAX), (MIN, MIN + 3), (MAX - 3, MAX), (-2**30, 2**30), (12345, 12345), (-7, -7), (100, 1000), (-70000, -65536), (4, 8), (1000000, 2000000)]
UNSIGNED = [(0, 5), (3, 2**31 + 5), (2**31, UMAX), (2**31 - 3, 2**31 + 3), (UMAX - 4, UMAX), (1, UMAX), (1, 2**31), (0, UMAX - 1), (5, 2**32 - 5)]
BITS = [(1, 0), (3, 0), (7, 0), (0, 1), (1, 2), (0x80000000, 0), (0, 0x80000000), (0xff, 0), (0xffffff00, 0), (0x80000001, 0), (0x80000000, 4), (0, 0xf0), (0x0f, 0xf0), (0xfffffffe, 0), (0xc0000000, 0), (2, 1), (1, 0x80000000),
        (0x7fffffff, 0), (0, 0x7fffffff), (0x10, 0x1), (0xffff, 0), (0xffff0000, 1)]


def ranges(R):
    """-> {key of construction: range}; soundness of the construction is judged here as well"""
    out, bad, n = {}, [], 0
    for fn, l in (("signed", SIGNED), ("unsigned", UNSIGNED), ("bits", BITS)):
        for a in l:
            try:
                r = R.run(fn, (), a)
            except (Undecided, Trap) as e:
                bad.append(("undec", "%s%s" % (fn, a), str(e)))
                continue
            full = {"signed": lambda v: a[0] <= v <= a[1], "unsigned": lambda v: a[0] <= v & UMAX <= a[1], "bits": lambda v: not v & UMAX & a[0] and not ~v & a[1] & UMAX}[fn]
            for v in sorted(set(BASE) | {x + d for x in a for d in (-1, 0, 1) if MIN <= x + d <= MAX} | {sgn((x & ~a[0] & UMAX) | a[1], 32) for x in BASE}):
                if full(v):
                    n += 1
                    if not within(v, r):
                        bad.append(("bad", "sync/%s%s" % (fn, a), "normalising the %s range %s loses the value %d: %s" % (fn, a, v, show(r))))
                        break
            out["%s%s" % (fn, a)] = r
    for v in (0, 1, -1, MIN, MAX, 100, 2**31, 2**32 + 5, -2**32 - 1, UMAX):
        try:
            r = R.run("const", (), (v,))
        except (Undecided, Trap) as e:
            bad.append(("undec", "const %d" % v, str(e)))
            continue
        n += 1
        if not within(sgn(v, 32), r):
            bad.append(("bad", "constant/%d" % v, "the range of the constant %d is %s" % (v, show(r))))
        out["const(%d)" % v] = r
    r = R.run("nonneg", ())
    for v in BASE:
        n += v >= 0
        if v >= 0 and not within(v, r):
            bad.append(("bad", "nonnegative/%d" % v, "the range of non-negative values lacks %d: %s" % (v, show(r))))
    return out, bad, n


R = None
DEADLINE = time.time() + 700


def judge(job):
    op, pairs = job
    out = []
    for (ka, a), (kb, b) in pairs:
        if time.time() > DEADLINE:
            out.append(("undec", "%s(%s, %s)" % (op, ka, kb), "out of time"))
            continue
        key = "%s(%s%s)" % (op, ka, ", " + kb if op not in UN else "")
        if op in ("Shl", "LShr", "AShr") and not any(0 <= y <= 31 for y in members(b, 99)):
            continue
        try:
            if op == "query":
                out += queries(ka, a, kb, b)
                continue
            r = R.run(op, (a,) if op in UN else (a, b))
        except (Undecided, Trap) as e:
            # arithmetic that traps on the host is only reached when no value pair exists
            out.append(("undec", key, str(e)))
            continue
        msg, n = None, 0
        for x in members(a):
            if op in UN:
                if x == MIN and op == "Abs":
                    continue
                n += 1
                v = sgn(abs(x) if op == "Abs" else -x, 32)
                if not within(v, r):
                    msg = "%s of %d is %d, outside the computed range" % (op, x, v)
                continue
            if op == "union":
                n += 1
                if not within(x, r):
                    msg = "%d of the first range is outside the union" % x
                continue
            if op == "intersection":
                if within(x, b):
                    n += 1
                    if not within(x, r):
                        msg = "%d is in both ranges but outside the intersection" % x
                continue
            for y in members(b):
                if op in ("SDiv", "SRem") and x == MIN and y == -1:
                    continue
                v = INTBIN[op](x, y, 32)
                if v is None:
                    continue
                n += 1
                v = sgn(v, 32)
                if not within(v, r):
                    msg = "%d %s %d is %d, outside the computed range" % (x, op, y, v)
                    break
            if msg:
                break
        if op == "union" and not msg:
            for y in members(b):
                if not within(y, r):
                    msg = "%d of the second range is outside the union" % y
        out.append(("bad", key, msg + ": operands %s%s, result %s" % (show(a), "; " + show(b) if op not in UN else "", show(r))) if msg else ("ok", key, n))
    return out


def queries(ka, a, kb, b):
    out = []
    if ka == kb:
        l = members(a, 40)
        if l:
            for fn, pred, what in (("isnn", lambda v: v >= 0, "non-negative"), ("ispos", lambda v: v > 0, "positive")):
                r = R.run(fn, (a,), ret=False)
                w = [v for v in l if not pred(v)]
                out.append(("bad", "%s(%s)" % (fn, ka), "the range %s is called %s and contains %d" % (show(a), what, w[0])) if r & 1 and w else ("ok", "%s(%s)" % (fn, ka), len(l)))
            if R.run("hasconst", (a,), ret=False) & 1:
                c = R.run("constant", (a,), ret=False)
                w = [v for v in l if v != c]
                out.append(("bad", "constant(%s)" % ka, "the range %s is taken for the constant %d and contains %d" % (show(a), c, w[0])) if w else ("ok", "constant(%s)" % ka, len(l)))
            s, n = uns(R.run("suffix", (a,), ret=False), 32), R.run("suffixlen", (a,), ret=False)
            w = [v for v in l if (v ^ s) & ((1 << n) - 1)]
            out.append(("bad", "suffix(%s)" % ka, "the low %d bits of the range %s are taken to be %#x, and it contains %d" % (n, show(a), s, w[0])) if w else ("ok", "suffix(%s)" % ka, len(l)))
    r = R.run("meets", (a, b), ret=False)
    w = [v for v in members(a, 40) if within(v, b)]
    out.append(("bad", "meets(%s,%s)" % (ka, kb), "the ranges %s and %s are called disjoint, both contain %d" % (show(a), show(b), w[0])) if not r & 1 and w else ("ok", "meets(%s,%s)" % (ka, kb), len(w)))
    return out


def body(c):
    global R
    R = Ranges()
    c.units.update([SRC])
    rs, bad, n0 = ranges(R)
    # one construction per range
    seen = {}
    for k, r in rs.items():
        seen.setdefault(r, k)
    rs = [(k, r) for r, k in seen.items()]
    jobs = []
    for op in list(OPS) + list(UN) + ["query"]:
        pairs = [(x, x) for x in rs] if op in UN else list(itertools.product(rs, rs))
        if c.tier != "thorough" and len(pairs) > 2500:
            # quick: every range against every second one, both ways round
            pairs = [p for i, p in enumerate(pairs) if (i // len(rs) + i % len(rs)) % 2 == 0 or op in ("SDiv", "SRem")]
        for i in range(0, len(pairs), 200):
            jobs.append((op, pairs[i:i + 200]))
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p:
        res = p.map(judge, jobs, chunksize=1)
    seen = {}
    k = 0
    for out in [bad] + res:
        for kind, key, x in out:
            if kind == "ok":
                c.ok({"case": key, "value pairs": x} if k % 997 == 0 else None)
                k += 1
            elif kind == "undec":
                c.undec(key, x)
            else:
                seen.setdefault(key.split("(")[0].split("/")[0], []).append((key, x))
    for op, l in sorted(seen.items()):
        l.sort(key=lambda x: (len(x[0]), x[0]))
        c.bad(op, SRC, "%s: %s (%d cases)" % (l[0][0], l[0][1], len(l)))
    c.cov["ranges"] = len(rs)
    c.cov["values checked in constructions"] = n0
    if k < 20000:
        raise Broken("only %d range operations were decided" % k)


main("C31", "other", "the transfer functions of IntegerRange are interpreted abstractly on consistent ranges; every value an operation can have on operands inside the operand ranges (ends and corner values) must lie in the "
     "resulting signed and unsigned interval and agree with its known bits", body)
