"""Simplifications that rely on the ranges of values keep the value of what they replace."""
from _common import *
import multiprocessing
import time
import irsel
import irranges

PASSES = {
    "RangeAwareArithReduce": ("Transforms/Combine/RangeAwareArithReduce.cpp", r"RangeAwareArithReduce::runOnBlock\(.*\)::'lambda'\(cmmc::Instruction\*\)::operator\(\)$"),
    "ModuloOpt/srem2select": ("Transforms/Combine/ModuloOpt.cpp", r"ModuloOpt::srem2select\(.*\)::'lambda'\(cmmc::Instruction\*\)::operator\(\)$"),
    "ModuloOpt/mergeSum": ("Transforms/Combine/ModuloOpt.cpp", r"ModuloOpt::mergeSum\(.*\)::'lambda'\(cmmc::Instruction\*\)::operator\(\)$"),
}
ENV = {}


def jobs(name):
    if name.startswith("ModuloOpt"):
        return [(name, "SRem", "i32"), (name, "SRem", "i64"), (name, "URem", "i32")]
    out = [("ICmp", "i1"), ("And", "i1"), ("Or", "i1")]
    out += [(op, "i32") for op in irsel.INTBIN] + [(op, "i32") for op in irsel.INTUN] + [("Select", "i32")]
    out += [("SRem", "i64"), ("SMax", "i64"), ("SMin", "i64"), ("Abs", "i64")]
    return [(name,) + j for j in sorted(out, key=lambda j: j[0] not in ("ICmp", "And", "Or", "SRem", "Select"))]


def multiple(sh, env, a, b):
    """the remainder differs by a multiple of the modulus: it has the sign of another sum"""
    k = sh.nodes[0].kids[1]
    if b is not None and sh.nodes[0].op == "SRem" and env.get(k) and (int(a) - int(b)) % env[k] == 0:
        return "%s: sign of the sum" % sh.nodes[0].type


def go(j):
    name, op, ty, limit, seconds = j
    env = ENV[name]
    x = irranges.RExplorer(env, env.roots[0], max_shapes=limit, max_runs=700, max_assign=900, leafcombos=60, tags=multiple if name == "ModuloOpt/mergeSum" else None)
    t = time.time()
    x.explore(op, ty, t + seconds)
    return j, x.stats, x.problems, x.notes, len(x.done), time.time() - t


def body(c):
    deep = c.tier == "thorough"
    off = irranges.layout()
    work = []
    for name, (f, rx) in PASSES.items():
        # functions that call themselves stay functions of their own
        env = irsel.Env([f], rx + "|^cmmc::%s::[A-Za-z0-9]+$|%s::collectSum" % ((name.split("/")[0],) * 2), extra=[irranges.SRC], opaque=["IntegerRangeAnalysisResult::query"])
        env.roots = [r for r in env.roots if re.search(rx, r)]
        if len(env.roots) != 1:
            raise Broken("the reducer of %s was not found" % name)
        env.rangeoff = off
        ENV[name] = env
        c.units.update([f, irranges.SRC])
        work += [j + ((1500, 600) if deep else (150, 150)) for j in jobs(name)]
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p:
        res = p.map(go, work, chunksize=1)
    tot, seen, notes, rules = {}, set(), {}, {}
    for j, st, problems, nt, n, dt in res:
        name = j[0]
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        rules[name] = rules.get(name, 0) + n
        for k, v in nt.items():
            notes[(name, k)] = notes.get((name, k), 0) + v
        for k, v in problems.items():
            k = "%s/%s" % (name, k)
            if k not in seen:
                seen.add(k)
                c.bad(k, PASSES[name][0], v)
        if n:
            c.ok({"pass": name, "root": "%s.%s" % (j[1], j[2]), "rules over trees": n})
        if os.environ.get("VP_TIMES"):
            print(j, st, n, "%.1f" % dt)
    for (name, k), v in sorted(notes.items()):
        c.undec("%s: %s" % (name, k), "%d times" % v)
    c.cov["trees"], c.cov["paths"], c.cov["rewrites"], c.cov["comparisons"] = tot["shapes"], tot["paths"], tot["rewrites"], tot["judged"]
    c.cov["rewritten trees by pass"] = rules
    c.cov["trees left out by the bounds"] = tot.get("dropped_shapes", 0)
    if rules.get("RangeAwareArithReduce", 0) < 20:
        raise Broken("%d trees are rewritten (at least 20 expected)" % rules.get("RangeAwareArithReduce", 0))


main("C32", "other", "the reducer's residual control flow is interpreted abstractly over instruction trees refined by what it asks, with one of a set of ranges behind every question to the range analysis; "
     "the expression each path builds must have the value of the tree it replaces for operands within those ranges", body)
