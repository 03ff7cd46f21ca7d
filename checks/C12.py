"""C12: every pass a pipeline names is registered under that name and scope."""
from _common import *
import re
import concurrent.futures as cf
from terms import P


def entries(blocks, ptr, n, glob):
    """the string views stored into the array at ptr"""
    cells = {}
    for b in blocks:
        for e in b["ev"]:
            if e.get("call", "").startswith("llvm.memcpy") and e["args"][0] == ptr:
                g = glob.get(e["args"][1])
                if g is None or int(e["args"][2]) != 16 * n:
                    return None
                for off, size, v in g:
                    if cells.setdefault(off, v) != v:
                        return None
            elif "st" in e:
                d = e["st"]
                m = re.match(r"^\(gep (\d+) (\S+)\)$", d)
                base, off = (m.group(2), int(m.group(1))) if m else (d, 0)
                if base == ptr:
                    v = e["val"]
                    v = int(v) if re.match(r"^-?\d+$", v) else v
                    if cells.setdefault(off, v) != v:
                        return None
    out = []
    for i in range(n):
        l, s = cells.get(16 * i), cells.get(16 * i + 8)
        if not isinstance(l, int) or not isinstance(s, str) or not s.startswith('"'):
            return None
        out.append(s[1:-1][:l])
    return out


def body(c):
    regs = {}  # (scope, name) -> [class]
    files = all_sources("Transforms")
    users = all_sources("")

    def unit(f):
        bc = bitcode([f])
        r = run_tool("facts", {"modules": bc, "functions": ".", "callees": r"registerPass|make_shared|collect(Module|Function)Pass|operator\(\)$"})
        return f, bc, [x for x in r["functions"]]
    bitcode(users)
    with cf.ThreadPoolExecutor(8) as ex:
        units = list(ex.map(unit, users))
    todo_names, collects = [], []
    for f, bc, fns in units:
        c.units.add(f)
        byname = {}
        for x in fns:
            byname.setdefault(x["full"], x)
        inits = {y["full"] for x in fns if x["name"].startswith(("__cxx_global_var_init", "_GLOBAL__sub_I")) for y in x["calls"]}
        inits |= {x["full"] for x in fns if x["name"].startswith("__cxx_global_var_init")}
        for x in fns:
            rp = [y for y in x["calls"] if y["name"].endswith("PassRegistry::registerPass")]
            if rp:
                cls = [re.search(r"make_shared<(.*?)(?:,.*)?>\(", y["full"]) for y in x["calls"] if "make_shared" in y["name"]]
                cls = [m.group(1) for m in cls if m]
                if len(rp) != 1 or len(cls) != 1:
                    c.undec("%s/register" % f, "registration in %s not recognised" % x["full"])
                    continue
                scope = "Module" if "TransformPass<cmmc::Module>" in rp[0]["full"] else "Function"
                if x["full"] not in inits:
                    c.undec("%s/%s" % (f, cls[0]), "registered outside static initialisation")
                    continue
                todo_names.append((f, bc, scope, cls[0], x.get("loc", "")))
            if any(re.search(r"collect(Module|Function)Pass$", y["name"]) for y in x["calls"]):
                collects.append((f, bc, x["name"]))

    def name_of(t):
        f, bc, scope, cls, loc = t
        r = run_tool("spec", {"modules": bc, "root": "^%s::name$" % re.escape(cls), "opaque": [], "queries": [{"id": "x"}], "cfg": True})
        out = []
        for x in r["results"]:
            for b in x["blocks"]:
                if "ret" in b:
                    out.append(b["ret"])
        return t, out
    with cf.ThreadPoolExecutor(8) as ex:
        named = list(ex.map(name_of, todo_names))
    unknown = False
    for (f, bc, scope, cls, loc), rets in named:
        t = P(rets[0]) if len(set(rets)) == 1 else None
        if not (isinstance(t, list) or isinstance(t, tuple)) or t[0] != "struct" or not t[1].isdigit() or not t[2].startswith('"'):
            c.undec("%s/name" % cls, "name of the pass is not a constant: %r" % (rets,))
            unknown = True
            continue
        nm = t[2][1:-1][:int(t[1])]
        regs.setdefault((scope, nm), []).append(cls)
        if not nm:
            c.bad("%s/empty" % cls, f, "%s registers a pass with an empty name" % cls)
    for (scope, nm), l in sorted(regs.items()):
        if len(set(l)) > 1:
            c.bad("duplicate/%s/%s" % (scope, nm), nm, "%s passes %s are registered under the same name '%s': only the first one registered runs" % (scope, ", ".join(sorted(l)), nm))
        else:
            c.ok({"pass": nm, "scope": scope, "class": l[0]})
    c.cov["registered"] = len(regs)
    n = 0
    seen = set()
    for f, bc, fn in sorted(set((f, tuple(bc), fn) for f, bc, fn in collects)):
        if (f, fn) in seen:
            continue
        seen.add((f, fn))
        r = run_tool("spec", {"modules": list(bc), "root": "^%s$" % re.escape(fn), "opaque": [r"collect(Module|Function)Pass|addPass|vector|shared|~|operator (new|delete)|report|Diagnostics"],
                              "queries": [{"id": "x"}], "cfg": True, "globals": "."})
        for x in r["results"]:
            for b in x["blocks"]:
                for e in b["ev"]:
                    m = re.search(r"PassRegistry::collect(Module|Function)Pass$", e.get("call", ""))
                    if not m:
                        continue
                    scope = m.group(1)
                    a = e["args"]
                    key = "%s@%s" % (fn, n)
                    n += 1
                    if not a[-1].isdigit():
                        c.undec(key, "length of the list is not constant")
                        continue
                    k = int(a[-1])
                    if a[-2].startswith("@"):
                        g = dict((o, v) for o, s, v in x["globals"].get(a[-2], []))
                        l = [g[16 * i + 8][1:-1][:g[16 * i]] for i in range(k)] if all(isinstance(g.get(16 * i), int) and str(g.get(16 * i + 8, "")).startswith('"') for i in range(k)) else None
                    else:
                        l = entries(x["blocks"], a[-2], k, x["globals"])
                    if l is None:
                        c.undec(key, "list of names not recognised")
                        continue
                    for nm in l:
                        if (scope, nm) in regs:
                            c.ok({"named": nm, "scope": scope, "in": fn})
                        elif unknown:
                            c.undec("missing/%s/%s" % (scope, nm), "no pass registered under that name, but some names are not known")
                        else:
                            other = "Module" if scope == "Function" else "Function"
                            c.bad("missing/%s/%s" % (scope, nm), e["loc"], "%s collects the %s pass '%s', which is not registered%s" %
                                  (fn, scope.lower(), nm, " (it is a %s pass)" % other.lower() if (other, nm) in regs else ""))
    c.cov["pipelines"] = n
    if n < 12 or len(regs) < 60:
        raise Broken("only %d pipelines and %d passes recognised" % (n, len(regs)))


main("C12", "other", "registered names = constants returned by name() of every class handed to registerPass in a static initialiser, all translation units; every string view in a list handed to collectModulePass or "
     "collectFunctionPass is the name of a registered pass of that scope; no two registered passes of a scope share a name", body)
