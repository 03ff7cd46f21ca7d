"""Comparison of the IR the front end builds for a syntax tree with the meaning of the tree."""
import itertools
import multiprocessing
import front
import lang
from absint import Ptr
from terms import Undecided, Trap

VALS = {"i8": [-128, -3, -1, 0, 1, 2, 5, 127], "i16": [-32768, -300, -1, 0, 1, 7, 32767], "i32": [-2**31, -70000, -7, -1, 0, 1, 2, 5, 31, 300, 2**31 - 1], "i64": [-2**63, -2**32 - 5, -7, -1, 0, 1, 3, 63, 2**31, 2**32 + 5, 2**63 - 1],
        "f32": [-float("inf"), -300.5, -2.5, -0.0, 0.0, 0.5, 1.5, 5.0, 16777216.0, 3e9, float("nan")], "f64": [-float("inf"), -2.5, -0.0, 0.0, 0.1, 1.5, 5.0, 16777217.0, 3e9, float("nan")], "i1": [0, 1]}
FEW = {"i8": [-3, 0, 1, 5], "i16": [-300, 0, 1, 7], "i32": [-7, 0, 1, 5, -2**31], "i64": [-7, 0, 3, 2**32 + 5], "f32": [-2.5, -0.0, 0.0, 1.5, 5.0], "f64": [-2.5, 0.0, 1.5, 5.0], "i1": [0, 1]}


def show(d):
    if d is None:
        return "-"
    if d[0] == "leaf":
        t = ("" if d[3] or d[2][0] == "f" else "u") + d[2]
        return "%s:%s" % (d[4][1], t) if isinstance(d[4], tuple) else "%s:%s%s" % (d[1], t, "&" if d[4].startswith("l") else "")
    if d[0] == "stmt":
        return d[1]
    return "%s(%s)" % (d[0], ", ".join(show(x) if isinstance(x, tuple) or x is None else str(x) for x in d[1:]))


def leaves(d, r=None):
    """name -> leaf of all non-constant leaves"""
    r = {} if r is None else r
    if isinstance(d, tuple):
        if d and d[0] == "leaf":
            if not isinstance(d[4], tuple):
                r[d[1]] = d
        else:
            for x in d:
                leaves(x, r)
    return r


def tree(d, env, ret):
    """-> (kind, exit, value, type, log, memory); kind "ok", "cut", "skip", "reject" """
    T = lang.Tree(env, ret)
    v = x = t = None
    kind = "ok"
    try:
        if d[0] in EXPR:
            v, ty, s = T.rv(d)
            t = (ty, s)
        else:
            lang.allowed(d)
            x = T.st(d)
    except lang.Cut:
        kind = "cut"
    except lang.Skip:
        kind = "skip"
    except lang.Reject:
        kind = "reject"
    return kind, x, v, t, T.log, T.mem


EXPR = ("leaf", "binary", "compound", "unary", "incdec", "select", "comma", "cast", "castexpr", "cint")


def unpack(ret):
    if isinstance(ret, tuple) and ret[0] == "agg" and len(ret) == 3 and isinstance(ret[2], tuple) and ret[2][0] == "cells" and all(isinstance(v, int) for _, v, _ in ret[2][2:]):
        ret = ret[:2] + (sum(v << (8 * o) for o, v, _ in ret[2][2:]),)
    if not (isinstance(ret, tuple) and ret[0] == "agg" and len(ret) == 3 and isinstance(ret[2], int)):
        raise Undecided("result of an expression")
    p, q = ret[1:]
    return p, q & 0xffffffff, (q >> 32) & 1, (q >> 40) & 1


def compare(E, d, envs, ret=("i32", True), strict=0, type_matters=True, rejects=()):
    """-> (number of inputs compared, None | description of a difference); raises Undecided"""
    B = front.Build(E, strict=strict, ret=ret)
    try:
        ts = B.run(d)
    except Undecided:
        if envs and all(tree(d, env, ret)[0] == "skip" for env in envs):
            return 0, None
        raise
    if len(ts) != 1:
        raise Undecided("%d ways through the front end" % len(ts))
    t = ts[0]
    if t.end == "host":
        return 1, "the compiler misbehaves"
    if t.end not in ("ret", "reject"):
        raise Undecided("end %r" % (t.end,))
    n = 0
    for env in envs:
        kind, x, v, ty, log, mem = tree(d, env, ret)
        if t.end == "reject":
            if kind == "ok":
                return 1, "rejected, though the language defines it"
            if kind == "reject":
                n += 1
            continue
        if kind == "reject":
            return 1, "accepted, though the language does not allow it"
        ir = lang.IR(E, t)
        try:
            try:
                r = ir.run(env)
                cut = False
            except lang.Cut:
                r, cut = None, True
            got = None
            if kind == "ok" and not cut and d[0] in EXPR and v is not None:
                got = value(E, t, ir)
        except lang.Skip:
            if kind == "ok":
                return n, "%s: the generated code is undefined, the language gives %s" % (pr(env), (v, x))
            continue
        except lang.OutOfRange:
            if kind == "ok":
                return n, "%s: converts a number to a type that cannot hold it, the language gives %s" % (pr(env), (v, x))
            continue
        except lang.Mistyped as e:
            return n, "builds an ill-typed instruction: %s" % e
        if kind == "skip":
            k = min(len(log), len(ir.log))
            if not lang.samelog(log[:k], ir.log[:k]):
                return n, "%s: evaluates %s, the language %s" % (pr(env), lg(ir.log), lg(log))
            continue
        if kind == "cut" or cut:
            k = min(len(log), len(ir.log))
            if not (kind == "cut" and cut) and not (kind == "cut" and not cut and len(ir.log) >= k == len(log)) or not lang.samelog(log[:k], ir.log[:k]):
                return n, "%s: goes on with %s, the language with %s" % (pr(env), lg(ir.log), lg(log))
            n += 1
            continue
        if not lang.samelog(log, ir.log):
            return n, "%s: does %s, the language %s" % (pr(env), lg(ir.log), lg(log))
        if d[0] in EXPR:
            if r[0] != "end":
                return n, "%s: an expression ends with %s" % (pr(env), r[0])
            if v is not None:
                gv, gt, gs = got
                if not lang.same(gv, v) and not (gt == "i1" and v == (gv & 1)):
                    return n, "%s: gives %s, the language %s" % (pr(env), gv, v)
                if type_matters and gt != "i1" and (gt != ty[0] or lang.isint(gt) and bool(gs) != ty[1]):
                    return n, "has type %s%s, in the language %s%s" % ("" if gs else "unsigned ", gt, "" if ty[1] else "unsigned ", ty[0])
        else:
            want = ("ret",) if isinstance(x, tuple) else ("end",)
            if r[0] != want[0]:
                return n, "%s: leaves by %s, in the language by %s" % (pr(env), r[0], want[0])
            if isinstance(x, tuple) and not lang.same(r[1], x[1]):
                return n, "%s: returns %s, in the language %s" % (pr(env), r[1], x[1])
        n += 1
    return n, None


def value(E, t, ir):
    p, lv, c, s = unpack(t.ret)
    if not isinstance(p, Ptr):
        raise Undecided("no value")
    if lv:
        n = ir.var(p)
        ty = [x for x in front.TY if E and t.mem.get((p.base, E.L.type), (None,))[0] == Ptr(("obj", "ty", "ptr", x))]
        pt = t.mem.get((p.base, E.L.type), (None,))[0]
        to = t.mem.get((pt.base, E.T.pointee[0]), (None,))[0] if isinstance(pt, Ptr) else None
        if not isinstance(to, Ptr):
            raise Undecided("type of a variable")
        return ir.mem[n], to.base[2], s
    return ir.value(p), ir.typeof(p), s


def pr(env):
    return ", ".join("%s=%s" % (k, v[0] if len(set(map(repr, v))) == 1 else v) for k, v in sorted(env.items())) or "always"


def lg(l):
    return " ".join("%s %s" % (x[0], " = ".join(str(y) for y in x[1:])) if x[0] != "stmt" else x[1] for x in l[-8:]) or "nothing"


def inputs(d, vals=None, cap=400):
    """all combinations of sample values of the leaves of a tree"""
    L = leaves(d)
    l = [dict(zip(L, [[x] for x in vs])) for vs in itertools.product(*[(vals or VALS)[x[2]] for x in L.values()])]
    return l if len(l) <= cap else [l[(i * 7919) % len(l)] for i in range(cap)]


_E = None


def _job(x):
    key, items = x
    r = []
    for d, envs, kw in items:
        try:
            n, why = compare(_E, d, envs if envs is not None else inputs(d), **kw)
            if why:
                r.append(("bad", show(d), why, n))
            else:
                r.append(("ok", show(d), None, n))
        except (Undecided, Trap, RecursionError) as e:
            r.append(("undec", show(d), str(e) or "limit", 0))
    return key, r


def decide(c, groups, where, limit=3):
    """groups: key -> [(tree, inputs | None, options)]; reports into the Check c, -> number of inputs compared"""
    global _E
    _E = front.Front()
    total = 0
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for key, rs in pool.imap_unordered(_job, list(groups.items()), 1):
            bads = [x for x in rs if x[0] == "bad"]
            und = [x for x in rs if x[0] == "undec"]
            for x in rs:
                if x[0] == "ok":
                    total += x[3]
            if bads:
                b = min(bads, key=lambda x: len(x[1]))
                c.bad(key, where(key) if callable(where) else where, "%s %s (%d of %d trees)" % (b[1], b[2], len(bads), len(rs)))
            elif und:
                c.undec(key, "%s: %s (%d of %d trees)" % (und[0][1], und[0][2], len(und), len(rs)))
            else:
                c.ok("%s: %d trees" % (key, len(rs)))
    c.cov["inputs_compared"] = total
    c.cov["syntax_trees"] = sum(len(x) for x in groups.values())
    return total
