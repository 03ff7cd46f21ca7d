"""Analyses never serve results from before a change: the pass managers and the analysis cache."""
from _common import *
import itertools
import irtypes
from absint import Machine, Ptr, Undecided, Stop, sym, const_table

SRC = "cmmc/Transforms/TransformPass.cpp"
OPQ = ["^__cxa", "cleanupUnusedInsts$", "::verify$", "verifyModuleExec", "::dump$", "ostream", "operator<<", "Stage", "Diagnostics", "reportFatal", "attach", "::now$", "getOrder", "CallGraphSCC",
       "AnalysisPassManager::get", "std::_Hashtable", "std::unordered_map", "std::endl", "PassManager<.*>::run$", "operator delete", "hasAttr"]
THIS, ITEM, AN = Ptr(("obj", "this")), Ptr(("obj", "item")), Ptr(("obj", "analysis"))


class Bad(Exception):
    pass


def short(n):
    """last component of a qualified name, template arguments aside"""
    d, out = 0, ""
    for ch in n.replace("operator<<", "operator_shl").replace("operator->", "operator_arrow"):
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out


def run(c, mods, root, extra=()):
    r = run_tool("spec", {"modules": mods, "root": root, "opaque": OPQ + list(extra), "queries": [{"id": "x"}], "cfg": True, "globals": "."})
    out = {}
    for f in r["results"]:
        out.setdefault((f["name"], f.get("args")), f)
    return out, const_table(r.get("globals", {}))


def body(c):
    b = bitcode(["Transforms/TransformPass.cpp"])
    vt = irtypes.vtables(b)
    table = dict(vt)
    slots = {}
    # virtual functions of a function pass, by the vtable of one of them
    vts = sorted({g for g, _ in vt if "IterationPassWrapper" in g or "FunctionPassWrapper" in g})
    funcv = next((g for g in vts if "IterationPassWrapper" in g), None)
    modv = next((g for g in vts if "FunctionPassWrapper" in g), None)
    fs = {}
    for pat in (r"^cmmc::PassManager<.*>::run$", r"^cmmc::IterationPassWrapper::run$", r"^cmmc::FunctionPassWrapper::run$"):
        f, t = run(c, b, pat)
        fs.update(f)
        table.update(t)
    c.units.update("%s/%s" % k for k in fs)
    stat = {"runs": 0, "paths": 0}

    def zero(m, p, size, ty):
        if isinstance(p.base, str) and p.base.startswith("@") and (p.base, p.off) not in m.table:
            return 0

    def machine(f, args, mem, outcomes, wrapper, events, vtab):
        state = {}

        def call(m, name, a, e):
            s = short(name)
            if name == "indirect":
                raise Undecided("a call that is not understood at %s" % e.get("loc"))
            if s.endswith(("shared_ptr_access::operator_arrow", "shared_ptr_access::operator*")) or s.endswith("shared_ptr::get"):
                return m.load(a[0], 8, "ptr")
            last = s.rsplit("::", 1)[-1]
            if last == "isWrapper" and isinstance(a[0], Ptr) and a[0].base[0] == "pass":
                return int(wrapper[a[0].base[1]])
            if last == "name" and isinstance(a[0], Ptr) and a[0].base[0] == "pass":
                return ("agg", 4, Ptr("@name"))
            if last == "run" and isinstance(a[0], Ptr) and a[0].base[0] == "pass":
                k = sum(1 for x in m.events if x[0] == "RUN")
                if k >= len(outcomes):
                    raise Stop("enough")
                r = outcomes[k]
                m.events.append(("RUN", (a[0].base[1], a[1] if len(a) > 1 else None, k), r, e.get("loc")))
                if isinstance(r, tuple):
                    return ("agg",) + r
                return r
            if last in ("invalidateModule", "invalidateFunc"):
                m.events.append(("INV", (last, a[1] if last == "invalidateFunc" else None), None, e.get("loc")))
                return ("void",)
            if last == "reportFatal":
                raise Stop("fatal")
            if last == "verify":
                r = int(m.truth(("verified", len(m.events))))
                m.events.append(("VERIFY", (a[0],), r, e.get("loc")))
                return r
            if last == "cleanupUnusedInsts":
                m.events.append(("CLEAN", (a[0],), None, e.get("loc")))
                return ("void",)
            if s.endswith("AnalysisPassManager::get"):
                return Ptr(("obj", "scc"))
            if last == "getOrder":
                n = 2
                v = a[0] if len(a) == 2 else Ptr(("obj", "orders"))
                m.mem[(v.base, v.off)] = (Ptr(("obj", "order")), 8)
                for d in (8, 16):
                    m.mem[(v.base, v.off + d)] = (Ptr(("obj", "order"), 8 * n), 8)
                for k in range(n):
                    m.mem[(("obj", "order"), 8 * k)] = (Ptr(("func", k)), 8)
                return ("void",) if len(a) == 2 else v
            if s == "operator new":
                return Ptr(("heap", len(m.events)))
            if last == "hasAttr":
                return int(m.truth(("attr", len(m.events))))
            if last == "now":
                return ("clock", sum(1 for x in m.events if x[0].endswith("::now")))
            if s.startswith(("std::", "cmmc::Stage", "operator delete", "cmmc::Diagnostics", "cmmc::IntegerOpt", "cmmc::verifyModuleExec", "cmmc::Function::dump", "cmmc::Module::dump", "operator new")):
                return ("void",) if s.startswith("operator delete") or last in ("Stage", "~Stage") else ("opaque", s, len(m.events))
        m = Machine(f, call=call, args=args, load=zero, mem0=mem, table=table, visits=12, max_traces=600)
        stat["runs"] += 1
        trs = m.run()
        stat["paths"] += len(trs)
        return trs

    def passes(n, vtab):
        mem = {(THIS.base, 0): (Ptr("@none"), 8), (THIS.base, 8): (Ptr(("obj", "vec")), 8), (THIS.base, 16): (Ptr(("obj", "vec"), 16 * n), 8), (THIS.base, 24): (Ptr(("obj", "vec"), 16 * n), 8)}
        for k in range(n):
            mem[(("obj", "vec"), 16 * k)] = (Ptr(("pass", k)), 8)
            mem[(("obj", "vec"), 16 * k + 8)] = (0, 8)
            mem[(("pass", k), 0)] = (Ptr(vtab, 16), 8)
        return mem

    def stale(tr, need_module, item=None):
        """every reported change is followed by an invalidation before the next pass and before the end"""
        dirty = None
        for name, args, r, loc in tr.events:
            if name == "RUN":
                if dirty:
                    raise Bad("%s: the next pass runs on the analyses from before the change reported by the previous one" % loc)
                if r is True or r == 1 or isinstance(r, tuple) and r[1]:
                    dirty = item if item is not None else args[1]
            elif name == "INV" and dirty is not None:
                if args[0] == "invalidateModule" or not need_module and args[1] == dirty:
                    dirty = None
        if dirty and tr.end == "ret":
            raise Bad("returns with the analyses from before the change reported by a pass")

    # ---------------------------------------------------------------- pass pipelines
    for (name, nargs), f in sorted(fs.items(), key=str):
        if "PassManager<" not in name:
            continue
        scope = "Module" if "Module" in name else "Function"
        vtab = modv if scope == "Module" else funcv
        key = "pipeline/%s/%s" % (scope, "iteration" if nargs == 4 else "once")
        try:
            if vtab is None:
                raise Undecided("no pass class")
            for n in range(0, 4 if c.tier == "quick" else 5):
                for outs in itertools.product((0, 1), repeat=n):
                    for wrap in itertools.product((0, 1), repeat=n) if n <= 2 else [(0,) * n, (1,) * n, (0, 1) * 2, (1, 0, 0, 1)]:
                        for last in (list(range(n + 2)) + [2**63 - 1, -1]) if nargs == 4 else [None]:
                            args = [THIS, ITEM, AN] + ([last] if last is not None else [])
                            for tr in machine(f, args, passes(n, vtab), outs, wrap, None, vtab):
                                if tr.end == "fatal":
                                    if not any(e[0] == "VERIFY" and not e[2] for e in tr.events):
                                        raise Bad("stops although nothing failed")
                                    continue
                                if tr.end != "ret":
                                    raise Undecided("ends with %s" % tr.end)
                                stale(tr, True, ITEM)
                                if any(e[0] == "VERIFY" and not e[2] for e in tr.events):
                                    raise Bad("goes on with code that a pass left ill-formed")
                                ran = [(e[1][0], e[2]) for e in tr.events if e[0] == "RUN"]
                                want = any(r for _, r in ran)
                                got = tr.ret
                                if last is None:
                                    if sym(got):
                                        raise Undecided("result %r" % (got,))
                                    if bool(got & 1) != want:
                                        raise Bad("reports %s when its passes reported %s" % (bool(got & 1), [bool(r) for _, r in ran]))
                                else:
                                    if not (isinstance(got, tuple) and got[0] == "agg"):
                                        raise Undecided("result %r" % (got,))
                                    has = got[2]
                                    if sym(has):
                                        raise Undecided("result %r" % (got,))
                                    if bool(has & 1) != want:
                                        raise Bad("reports %s when its passes reported %s" % (bool(has & 1), [bool(r) for _, r in ran]))
                                lim = n if last is None or last < 0 else min(n, last)
                                if [k for k, _ in ran] != list(range(len(ran))):
                                    raise Bad("runs its passes in the order %s" % [k for k, _ in ran])
                                if len(ran) < n and (len(ran) < lim or want):
                                    raise Bad("leaves out passes from the %d. on although %s" % (len(ran) + 1, "the code was changed" if want else "they have not run since it was"))
            c.ok(key)
        except Bad as x:
            c.bad(key, SRC, "PassManager<%s>::run: %s" % (scope, x))
        except Undecided as x:
            c.undec(key, str(x))

    # ---------------------------------------------------------------- repetition until nothing changes
    f = next((f for (n, a), f in fs.items() if n.endswith("IterationPassWrapper::run")), None)
    key = "iteration"
    try:
        if f is None or funcv is None:
            raise Undecided("not found")
        for limit in range(0, 4):
            for outs in itertools.product((0, 1), repeat=limit):
                seq = [(k, o) for k, o in enumerate(outs)] + [(7, 0)]
                mem = {(THIS.base, 0): (Ptr("@none"), 8), (THIS.base, 8): (Ptr(("pass", 0)), 8), (THIS.base, 16): (0, 8), (THIS.base, 24): (limit, 4), (THIS.base, 28): (0, 1)}
                for tr in machine(f, [THIS, ITEM, AN], mem, [(k, o) for k, o in seq], (0,), None, funcv):
                    if tr.end == "fatal":
                        continue
                    if tr.end != "ret":
                        raise Undecided("ends with %s" % tr.end)
                    stale(tr, False, ITEM)
                    ran = [e[2][1] for e in tr.events if e[0] == "RUN"]
                    if sym(tr.ret):
                        raise Undecided("result")
                    if bool(tr.ret & 1) != any(ran):
                        raise Bad("reports %s when its rounds reported %s" % (bool(tr.ret & 1), [bool(x) for x in ran]))
                    if len(ran) > limit:
                        raise Bad("runs %d rounds, %d are allowed" % (len(ran), limit))
        c.ok(key)
    except Bad as x:
        c.bad(key, SRC, "IterationPassWrapper::run: %s" % x)
    except Undecided as x:
        c.undec(key, str(x))

    # ---------------------------------------------------------------- every function of a module
    f = next((f for (n, a), f in fs.items() if n.endswith("FunctionPassWrapper::run")), None)
    key = "per-function"
    try:
        if f is None or funcv is None:
            raise Undecided("not found")
        seen = set()
        for outs in itertools.product((0, 1), repeat=2):
            mem = {(THIS.base, 0): (Ptr("@none"), 8), (THIS.base, 8): (Ptr(("pass", 0)), 8), (THIS.base, 16): (0, 8), (("pass", 0), 0): (Ptr(funcv, 16), 8)}
            for tr in machine(f, [THIS, ITEM, AN], mem, outs, (0,), None, funcv):
                if tr.end == "fatal":
                    continue
                if tr.end != "ret":
                    raise Undecided("ends with %s" % tr.end)
                stale(tr, False)
                ran = [(e[1][1], e[2]) for e in tr.events if e[0] == "RUN"]
                seen.add(len(ran))
                if sym(tr.ret):
                    raise Undecided("result")
                if bool(tr.ret & 1) != any(r for _, r in ran):
                    raise Bad("reports %s when its pass reported %s" % (bool(tr.ret & 1), [bool(r) for _, r in ran]))
                if any(not isinstance(x, Ptr) or x.base[0] != "func" for x, _ in ran) or len({x for x, _ in ran}) != len(ran):
                    raise Bad("runs the pass twice on a function")
        if 2 not in seen:
            raise Undecided("no path runs the pass on two functions")
        c.ok(key)
    except Bad as x:
        c.bad(key, SRC, "FunctionPassWrapper::run: %s" % x)
    except Undecided as x:
        c.undec(key, str(x))

    # ---------------------------------------------------------------- the cache
    b2 = bitcode(["Analysis/AnalysisPass.cpp"])
    g, t2 = run(c, b2, r"^cmmc::AnalysisPassManager::(invalidateFunc|invalidateModule|getPassResult)$")
    c.units.update("%s/%s" % k for k in g)
    A2 = "cmmc/Analysis/AnalysisPass.cpp"
    FUNC, ID = Ptr(("obj", "function")), Ptr(("obj", "id"))

    def kind(name):
        """which of the maps a container operation is on"""
        head = name.split("<", 1)[-1]
        if "unordered_map<cmmc::Function*" in name:
            return "functions"
        if "std::function" in name:
            return "builders"
        if "AnalysisPass<cmmc::Module>" in head:
            return "module"
        if "AnalysisPass<cmmc::Function>" in head:
            return "function"

    def cache(f, args):
        def call(m, name, a, e):
            s = short(name).rsplit("::", 1)[-1]
            k = kind(name)
            if "unordered_map" in name and k:
                kv = m.load(a[1], 8, "ptr") if len(a) > 1 and isinstance(a[1], Ptr) and s in ("operator[]", "at", "find", "erase", "count") else None
                r = Ptr(("slot", k, str(a[0]), str(kv))) if s in ("operator[]", "at", "find") else ("void",)
                m.events.append(("MAP", (k, s, a[0], kv), r, e.get("loc")))
                return r
            if name == "indirect":
                m.events.append(("VIRT", tuple(a), None, e.get("loc")))
                return ("opaque", len(m.events))
        m = Machine(f, call=call, args=args, table=t2, visits=4, mem0={})
        trs = m.run()
        stat["runs"] += 1
        stat["paths"] += len(trs)
        return [t for t in trs if t.end == "ret"]

    def maps(t):
        return [(e[1], e[2]) for e in t.events if e[0] == "MAP"]

    f = next((f for (n, a), f in g.items() if n.endswith("invalidateModule")), None)
    key = "cache/invalidateModule"
    try:
        if f is None:
            raise Undecided("not found")
        for t in cache(f, [AN]):
            cleared = {k for (k, s, p, kv), r in maps(t) if s == "clear" and isinstance(p, Ptr) and p.base == AN.base}
            if not maps(t):
                raise Undecided("containers not understood")
            for k, d in (("functions", "of the functions"), ("module", "of the module")):
                if k not in cleared:
                    raise Bad("the analyses %s are kept" % d)
        c.ok(key)
    except Bad as x:
        c.bad(key, A2, "AnalysisPassManager::invalidateModule: %s" % x)
    except Undecided as x:
        c.undec(key, str(x))

    f = next((f for (n, a), f in g.items() if n.endswith("invalidateFunc")), None)
    key = "cache/invalidateFunc"
    try:
        if f is None:
            raise Undecided("not found")
        ts = cache(f, [AN, FUNC])
        done = 0
        for t in ts:
            ok, mine = False, set()
            for (k, s, p, kv), r in maps(t):
                if k == "functions" and s in ("operator[]", "at", "find") and kv == FUNC:
                    mine.add(r.base)
                elif k == "functions" and (s == "clear" or s == "erase" and (kv == FUNC or isinstance(kv, Ptr) and kv.base in mine)):
                    ok = True
                elif k == "function" and s == "clear" and isinstance(p, Ptr) and p.base in mine:
                    ok = True
            done += ok
            if not maps(t):
                raise Undecided("containers not understood")
            # a path that finds no entry for the function has nothing to discard
            if not ok and not (len(ts) > 1 and any((s in ("find", "count")) for (k, s, p, kv), r in maps(t))):
                raise Bad("the analyses of the function are kept")
        if not done:
            raise Bad("the analyses of the function are kept")
        c.ok(key)
    except Bad as x:
        c.bad(key, A2, "AnalysisPassManager::invalidateFunc: %s" % x)
    except Undecided as x:
        c.undec(key, str(x))

    for (n, a), f in sorted(g.items(), key=str):
        if not n.endswith("getPassResult"):
            continue
        per = a == 3
        key = "cache/get/%s" % ("function" if per else "module")
        try:
            for t in cache(f, [AN, FUNC, ID] if per else [AN, ID]):
                ms = maps(t)
                if not any(k in ("function", "module") for (k, s, p, kv), r in ms):
                    raise Undecided("containers not understood")
                for (k, s, p, kv), r in ms:
                    if k == "functions" and kv is not None and kv != FUNC:
                        raise Bad("looks under another function than the one asked for")
                    if k in ("function", "module", "builders") and s in ("operator[]", "at", "find") and kv != ID:
                        raise Bad("looks for another analysis than the one asked for")
            c.ok(key)
        except Bad as x:
            c.bad(key, A2, "AnalysisPassManager::getPassResult: %s" % x)
        except Undecided as x:
            c.undec(key, str(x))
    c.cov.update(stat)
    c.floor(8, "pass managers")


main("C26", "other", "path exploration of the pass managers over every outcome of their passes: a reported change is followed by invalidation before the next pass and is reported on; the cache discards and looks up what it is asked to", body)
