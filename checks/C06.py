"""Algebraic simplifications keep the value of what they replace."""
from _common import *
import multiprocessing
import time
import irsel

PASSES = {
    "ArithmeticReduce": ("Transforms/Combine/ArithmeticReduce.cpp", r"ArithmeticReduce::runOnBlock\(.*\)::'lambda'\(cmmc::Instruction\*\)::operator\(\)$"),
    "CombineFma": ("Transforms/Combine/CombineFma.cpp", r"CombineFma::run\(.*\)( const)?::'lambda'\(cmmc::Instruction\*\)::operator\(\)$"),
}
ENV = {}


def jobs(name):
    out = []
    if name == "CombineFma":
        return [(name, op, "f32", 1) for op in ("FAdd", "FSub", "FMul", "FNeg", "FDiv", "FFma")]
    for n in (1, 0):
        for op in irsel.INTBIN:
            out += [(name, op, t, n) for t in ("i32", "i64", "i1")]
        for op in irsel.INTUN:
            out += [(name, op, t, n) for t in ("i32", "i64")]
        out += [(name, op, "f32", n) for op in list(irsel.FPBIN) + list(irsel.FPUN) + ["FFma"]]
        out += [(name, op, "i1", n) for op in ("ICmp", "FCmp")] + [(name, "Select", t, n) for t in ("i32", "i1", "f32", "i64")]
        for op, d in irsel.Explorer.CASTSRC.items():
            out += [(name, op, t, n) for t in d]
    heavy = ("And", "Or", "Select", "ICmp")
    return sorted(out, key=lambda j: (j[1] not in heavy, j[2] != "i1"))


def go(j):
    name, op, ty, native, limit, seconds = j
    env = ENV[name]
    x = irsel.Explorer(env, env.roots[0], native=native, max_shapes=limit)
    t = time.time()
    x.explore(op, ty, t + seconds)
    return j, x.stats, x.problems, x.notes, len(x.done), time.time() - t


def body(c):
    deep = c.tier == "thorough"
    rules = 0
    work = []
    for name, (f, rx) in PASSES.items():
        env = irsel.Env([f], rx)
        if len(env.roots) != 1:
            raise Broken("the reducer of %s was not found" % name)
        ENV[name] = env
        c.units.add(f)
        work += [j + ((4000, 600) if deep else (420, 110)) for j in jobs(name)]
    c.units.update(["IR/ConstantValue.cpp", "IR/Instruction.cpp"])
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p:
        res = p.map(go, work, chunksize=1)
    tot = {}
    seen = set()
    notes = {}
    byrule = {}
    for j, st, problems, nt, n, _ in res:
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
        byrule[j[0]] = byrule.get(j[0], 0) + n
        for k, v in nt.items():
            notes[(j[0], k)] = notes.get((j[0], k), 0) + v
        for k, v in problems.items():
            key = "%s/%s" % (j[0], k)
            if key not in seen:
                seen.add(key)
                c.bad(key, PASSES[j[0]][0], v)
        if n:
            c.ok({"pass": j[0], "root": "%s.%s" % (j[1], j[2]), "native": j[3], "rules over trees": n})
    for (name, k), v in sorted(notes.items()):
        c.undec("%s: %s" % (name, k), "%d times" % v)
    c.cov["trees"], c.cov["paths"], c.cov["rewrites"], c.cov["comparisons"] = tot["shapes"], tot["paths"], tot["rewrites"], tot["judged"]
    c.cov["rewritten trees by pass"] = byrule
    c.cov["trees left out by the bounds"] = tot.get("dropped_shapes", 0)
    for name, least in (("ArithmeticReduce", 1000), ("CombineFma", 2)):
        if byrule.get(name, 0) < least:
            raise Broken("%s: %d trees are rewritten (at least %d expected)" % (name, byrule.get(name, 0), least))


main("C06", "other", "the reducers' residual control flow is interpreted abstractly over instruction trees refined by what the reducer asks (operation, class, identity, constants kept symbolic along a path); "
     "the expression each path builds must have the value of the tree it replaces on a grid of operands", body)
