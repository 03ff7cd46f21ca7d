"""Rewrites that are guarded by the integer ranges of their operands: irsel with a range, chosen among a few per value,
behind every question to the range analysis. A rewrite is compared only for operands that lie in the ranges its
path was told."""
import math
from vlib import *
import irsel
from irsel import CInt, Node, Shape, Model, Explorer, Env, UB, Skip, compile_expr, run_expr, original, plain, forms, fixcmp, instance, canonical, etext
from absint import Machine, Ptr, Stop, Lit
from irtypes import functions
from terms import Undecided

OFF = 100000
FIELDS = ["knownZeros", "knownOnes", "minUnsignedValue", "maxUnsignedValue", "minSignedValue", "maxSignedValue"]
MIN, MAX, UMAX = -2**31, 2**31 - 1, 2**32 - 1
SRC = "Analysis/IntegerRange.cpp"
H = '#include <cmmc/Analysis/IntegerRange.hpp>\n#include <new>\nusing namespace cmmc;\nusing R = IntegerRange;\n' + "".join(
    'extern "C" int64_t vk_%s(const R* a) { return (int64_t)a->%s(); }\n' % (x, x) for x in FIELDS)


def layout():
    bc = harness("rangelayout", H)
    if bc is None:
        raise Broken("the interface of IntegerRange was not recognised")
    f = functions(run_tool("spec", {"modules": [bc] + bitcode([SRC]), "root": "^vk_", "opaque": [], "queries": [{"id": "x"}], "cfg": True}))

    def loads(x):
        if isinstance(x, tuple):
            if x and x[0] == "ld":
                yield x
            for y in x:
                yield from loads(y)
    o = {}
    for n in FIELDS:
        ts = [t for t in Machine(f["vk_" + n], None, [Ptr("A")]).run() if t.end == "ret"]
        s = {x for x in loads(ts[0].ret) if x[1] == "A"}
        if len(s) != 1:
            raise Broken("layout of IntegerRange not recognised")
        x = s.pop()
        o[n] = (x[2], {"i32": 4, "i64": 8}[x[3]])
    return o


def make(lo, hi):
    """the best description of lo..hi (signed)"""
    if lo >= 0 or hi < 0:
        ul, uh = lo & UMAX, hi & UMAX
        d = ul ^ uh
        m = (1 << d.bit_length()) - 1
        return (~(ul | m) & UMAX, ul & ~m & UMAX, ul, uh, lo, hi)
    return (0, 0, 0, UMAX, lo, hi)


def unsigned(lo, hi):
    if hi <= MAX or lo > MAX:
        s = lambda u: u - (1 << 32) if u > MAX else u
        return make(s(lo), s(hi))
    return (0, 0, lo, hi, MIN, MAX)


FULL = (0, 0, 0, UMAX, MIN, MAX)
# 0 is what the analysis says of values it knows nothing about
RANGES = [FULL] + [make(*r) for r in ((0, MAX), (1, MAX), (MIN, -1), (MIN, 0), (5, 5), (0, 0), (-3, 7), (0, 7), (2, 100), (8, 1000), (7, 8), (-100, -2), (-1, MAX), (MIN, 5), (1, 1), (-1, -1), (MIN + 1, MAX - 1), (40000, 60000), (0, 46341))] + [
    unsigned(1, UMAX), unsigned(0, 2**31), (3, 0, 0, UMAX - 3, MIN, MAX - 3), (0, 1, 1, UMAX, MIN + 1, MAX), (0x80000000 | 3, 0, 0, 2**31 - 4, 0, 2**31 - 4)]
ROOT = [0, 1, 3, 5, 6]
SHORT = [0, 1, 2, 3, 5, 6, 8, 9, 12]


def within(v, r):
    z, o, ul, uh, sl, sh = r
    u = v & UMAX
    return sl <= v <= sh and ul <= u <= uh and not u & z and not ~u & o & UMAX


def show(r):
    z, o, ul, uh, sl, sh = r
    if r == FULL:
        return "anything"
    s = "%d..%d" % (sl, sh)
    if sl < 0 <= sh and (ul, uh) != (0, UMAX):
        s += " (unsigned %d..%d)" % (ul, uh)
    return s + (" ones %#x" % o if o else "")


class RModel(Model):
    def __init__(self, env, native, index, ranges):
        super().__init__(env, native)
        self.index, self.ranges, self.queried = index, ranges, {}

    def __call__(self, m, name, args, e):
        if name.endswith("IntegerRangeAnalysisResult::query"):
            if len(args) < 3 or not isinstance(args[2], Ptr) or not isinstance(args[0], Ptr):
                raise Stop("question to the range analysis")
            i = irsel.nodeof(args[2])
            if i is None:
                # a value the reducer made: nothing is known
                r = FULL
            else:
                n = m.shape.nodes[i]
                if n.type != "i32":
                    r = FULL
                elif n.kind == "const":
                    v = m.pin(m.mem[(args[2].base, self.env.off["int"])][0])
                    v = irsel.wrap(int(v), "i32")
                    r = make(v, v)
                else:
                    k = self.index.get(OFF + i, 0)
                    m.path.append((("icmp-eq:64", ("var", OFF + i), Lit(k)), True))
                    m.wants.add(i)
                    r = self.ranges[k]
                    self.queried[i] = r
            for f, v in zip(FIELDS, r):
                p, s = self.env.rangeoff[f]
                if s == 4 and v >= 1 << 31:
                    v -= 1 << 32
                m.store(Ptr(args[0].base, args[0].off + p), v, s)
            return 0
        return super().__call__(m, name, args, e)


class RExplorer(Explorer):
    def __init__(self, *a, ranges=RANGES, tags=None, **k):
        super().__init__(*a, **k)
        self.tags = tags      # names failures that are one and the same in many trees
        self.ranges = ranges
        self.bounds = self.max_assign, self.max_runs

    def machine(self, sh, env, token):
        cells = dict(self.E.tmem)
        cells.update(self.E.cells(sh, env))
        args = self.args(sh) if self.args else [Ptr("closure"), Ptr(("obj", "n", sh.root))]
        m = irsel.M(self.fn, RModel(self.E, self.native, env, self.ranges), args, mem0=cells, funcs=self.E.funcs, table=self.E.table, max_steps=60000, visits=60, max_traces=4)
        m.reset()
        m.token, m.shape, m.wants = token, sh, set()
        return m

    def explore_shape(self, sh):
        """the ranges of values the reducer asks for are added to the unknowns of the tree as they are asked for"""
        self.stats["shapes"] += 1
        dom = self.domains(sh)
        for i, n in sh.nodes.items():
            if n.type == "i32" and n.kind != "const":
                dom[OFF + i] = [0]
        asks, self.open = set(), False
        wanted = set()
        done = {}
        small = len(sh.nodes) <= 4
        self.max_assign, self.max_runs = (6500, 6500) if small else self.bounds
        runs0 = self.stats["runs"]
        for turn in range(4):
            queue = self.assignments(dom)
            # combinations the reducer does not tell apart are run once
            keys = sorted(dom)
            for env in queue:
                lf = self.lookup(done, env)
                if lf is None:
                    if self.stats["runs"] - runs0 >= self.max_runs:
                        self.stats["dropped"] += 1
                        continue
                    m, res = self.run(sh, env)
                    asks.update(m.asks)
                    wanted |= m.wants
                    lf = {"res": res, "envs": [], "told": dict(m.callm.queried)}
                    self.stats["paths"] += 1
                    self.insert(done, m.path, lf, env)
                lf["envs"].append(env)
            new = [i for i in wanted if len(dom.get(OFF + i, ())) == 1]
            if not new:
                break
            for i in new:
                dom[OFF + i] = ROOT if i == sh.root and not small else list(range(len(self.ranges))) if len(wanted) <= 3 and small else SHORT
        for lf in self.leaves(done):
            self.open |= lf["res"] == ("und", "open operation")
            self.judge(sh, lf)
        return asks

    def assignments(self, dom):
        l = super().assignments(dom)
        cs = [k for k in dom if k < OFF and len(dom[k]) > 12]
        if len(cs) > 1:
            # rules that want the same constant in several places
            common = [v for v in dom[cs[0]] if all(v in dom[k] for k in cs)]
            for v in common:
                for e in self.rng.sample(l, min(len(l), 6)):
                    l.append({**e, **{k: v for k in cs}})
        return l

    @staticmethod
    def lookup(tree, env):
        n = tree
        while n:
            if "cond" not in n:
                return n.get("leaf")
            v = n["cond"](env)
            if v is None:
                return None
            n = n["to"].get(bool(v))
        return None

    @staticmethod
    def insert(tree, path, leaf, env):
        n = tree
        for t, v in path:
            while "cond" in n and not irsel.sameterm(n["cond"].t, t):
                n = n["to"].setdefault(bool(n["cond"](env)), {})
            if "cond" not in n:
                n["cond"], n["to"] = irsel.Cond(t), {}
            n = n["to"].setdefault(v, {})
        while "cond" in n:
            n = n["to"].setdefault(bool(n["cond"](env)), {})
        n["leaf"] = leaf

    def leaves(self, n):
        if "leaf" in n:
            yield n["leaf"]
        for x in n.get("to", {}).values():
            yield from self.leaves(x)

    def part(self, sh, i):
        return compile_expr(original(Shape(sh.nodes, i), self.E))

    def judge(self, sh, lf):
        kind, x = lf["res"]
        if kind == "none" or kind == "und" and x == "open operation":
            return
        if kind == "und":
            self.notes[x] = self.notes.get(x, 0) + 1
            self.stats["undecided"] += 1
            return
        try:
            old = original(sh, self.E)
        except irsel.Unreadable:
            return
        if plain(old) == plain(x):
            return
        self.stats["rewrites"] += 1
        so, sn = compile_expr(old), compile_expr(x)
        told = lf["told"]
        parts = {i: self.part(sh, i) for i in told if sh.nodes[i].kind != "leaf"}
        lv = sorted(i for i, n in sh.nodes.items() if n.kind == "leaf")
        envs = lf["envs"]
        if len(envs) > 40:
            envs = self.spread(sh, envs, 40)
        ends = sorted({v for r in told.values() for v in (r[4], r[4] + 1, r[5], r[5] - 1) if MIN <= v <= MAX})
        tested = 0
        for env in envs:
            cs = [env[i] for i in env if i in sh.nodes and sh.nodes[i].kind == "const"]
            grids = []
            for i in lv:
                t = sh.nodes[i].type
                g = irsel.lgrid(t, cs) if irsel.isint(t) else irsel.FGRID
                if t == "i32":
                    g = list(dict.fromkeys(list(g) + ends + [-6, -9, 9, 12]))
                    if i in told:
                        g = [v for v in g if within(v, told[i])]
                grids.append(g)
            total = 1
            for g in grids:
                total *= len(g)
            if not total:
                continue
            if total <= self.leafcombos:
                import itertools
                combos = itertools.product(*grids)
            else:
                combos = [tuple(self.rng.choice(g) for g in grids) for _ in range(self.leafcombos)]
                if len(grids) > 1:
                    combos += [tuple(g[j % len(g)] for g in grids) for j in range(max(map(len, grids)))]
            for vs in combos:
                leaves = dict(zip(lv, vs))
                try:
                    a = run_expr(so, env, leaves, self.E.cmpname, True)
                    if not all(within(int(run_expr(p, env, leaves, self.E.cmpname, True)), told[i]) for i, p in parts.items()):
                        continue
                except (UB, Skip):
                    continue
                try:
                    b = run_expr(sn, env, leaves, self.E.cmpname, False)
                except Skip:
                    continue
                except UB:
                    b = None
                tested += 1
                if b is None or not irsel.close(a, b):
                    say = "%s becomes %s; with %s and the ranges %s the first is %s, the second %s" % (
                        etext(old, self.E, env), etext(x, self.E, env), ", ".join("%%%d=%r" % kv for kv in sorted(leaves.items())) or "no inputs",
                        ", ".join("%s in %s" % ("%%%d" % i if sh.nodes[i].kind == "leaf" else sh.text(i), show(r)) for i, r in sorted(told.items()) if r != FULL) or "all full", a, "undefined" if b is None else b)
                    tag = self.tags(sh, env, a, b) if self.tags else None
                    if tag:
                        self.problems.setdefault(tag, say)
                        continue
                    o1, n1 = forms(fixcmp(old, env, sh), self.E), forms(fixcmp(x, env, sh), self.E)
                    if not any(instance(p, o1, n1) for p in self.failed):
                        self.failed.append((o1[0], n1[0]))
                        self.problems[canonical(o1, n1)] = say
                    break
        self.stats["judged"] += tested
        if tested:
            k = "%s -> %s" % (sh.text(), etext(x, self.E))
            self.done[k] = self.done.get(k, 0) + tested

    def spread(self, sh, envs, n):
        self.rng.shuffle(envs)
        return envs[:n]
