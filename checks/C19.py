"""C19: machine instruction descriptions match the instruction set."""
from _common import *
import instdesc, isa, mir


def body(c):
    F = enum_values("cmmc/CodeGen/InstInfo.hpp", "InstFlag", "cmmc::mir::")
    F = {k.replace("InstFlag", "", 1): v for k, v in F.items()}
    R = enum_values("cmmc/CodeGen/InstInfo.hpp", "OperandFlag", "cmmc::mir::")
    instdesc.LET = {v: {"Use": "u", "Def": "d", "Metadata": "m"}.get(k.replace("OperandFlag", ""), "?") for k, v in R.items()}
    total = 0
    for t in ("RISCV", "MIPS", "ARM", "Generic", "TAC"):
        D, why = instdesc.read(t)
        if D is None:
            c.undec(t, why)
            continue
        c.units.add("cmmc/Target/%s/%s.yml" % (t, t))
        c.units.add("cmmc/" + instdesc.source(t))
        T = instdesc.table(t)
        for n in sorted(set(T) - set(D)):
            c.undec("%s/%s" % (t, n), "no such instruction any more")
        for n, d in D.items():
            total += 1
            key = "%s/%s" % (t, n)
            if n not in T:
                c.undec(key, "not in the instruction set table")
                continue
            kinds, text, hidden = T[n]
            loc = d.loc
            if d.num is None or d.flags is None or sorted(d.roles) != list(range(d.num)):
                c.bad(key + "/operands", loc, "%s says it has %r operands but describes %r" % (n, d.num, sorted(d.roles)))
                continue
            got, hid = instdesc.shape(d)
            if "<" in got and "?" in got:
                c.undec(key + "/text", "text not recognised: " + got)
            elif t == "Generic":
                roles = "".join(instdesc.LET.get(d.roles[k], "?") for k in range(d.num))
                c.expect(roles == hidden, key + "/operands", loc, "%s has operands %s where %s is what it does (d written, u read, m immediate or symbol)" % (n, roles, hidden))
            else:
                c.expect(got == text, key + "/text", loc, "%s prints as '%s', the instruction is '%s' (d written, u read, m immediate or symbol)" % (n, got, text))
                c.expect(hid == "".join(sorted(hidden)), key + "/hidden", loc, "%s has unprinted operands '%s' where the instruction has '%s'" % (n, hid, hidden))
            want = set()
            for k in kinds:
                want |= instdesc.DOES.get(k, set())
                if k in instdesc.MODS:
                    want.add(instdesc.MODS[k])
            have = {k for k, v in F.items() if v and v & (v - 1) == 0 and d.flags & v}
            for f in instdesc.EXACT:
                if f not in F:
                    c.undec(key + "/" + f, "flag %s not found" % f)
                elif (f in have) != (f in want):
                    c.bad(key + "/" + f, loc, "%s %s flag %s" % (n, "lacks" if f in want else "must not have", f))
                else:
                    c.ok()
            for f, k in instdesc.ONLY.items():
                c.expect(f not in have or any(x in kinds for x in k), key + "/" + f, loc, "%s must not have flag %s" % (n, f))
            for k, f in list(instdesc.MUST.items()) + list(instdesc.MODS.items()):
                if k in kinds:
                    c.expect(f in have, key + "/" + f, loc, "%s lacks flag %s" % (n, f))
            if sum(1 for r in d.roles.values() if instdesc.LET.get(r) == "d") > 1:
                c.expect("MultiDef" in have, key + "/MultiDef", loc, "%s writes more than one operand and lacks flag MultiDef" % n)
    for t in ("RISCV", "MIPS", "ARM"):
        instdesc.printing(c, t)
    for t in ("RISCV", "MIPS", "ARM", "TAC", "Generic"):
        instdesc.lookup(c, t)
    for t in ("RISCV", "MIPS", "ARM", "TAC"):
        instdesc.branches(c, t)
    c.cov["instructions"] = total
    c.floor(3000, "description facts")


main("C19", "other", "a harness instantiates every generated description class; the residual program gives operand count, roles, flags and the exact sequence of texts and operands printed, "
     "which are compared with a table of the instruction sets written from the ISA manuals", body)
