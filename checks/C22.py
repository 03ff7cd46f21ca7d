"""C22: reversing a machine branch takes exactly the other cases."""
from _common import *
from terms import Undecided, Trap, unesc
from absint import *
import mir, isa


def has_prob(i):
    return any(o["class"] == "Prob" for o in i["operands"])


def body(c):
    L = mir.Layout()
    n = 0
    for t in ("RISCV", "MIPS", "ARM", "TAC"):
        f = "Target/%s/%sInstInfo.cpp" % (t, t)
        files = [f] + (["Target/ARM/ARMISelInfo.cpp"] if t == "ARM" else [])
        bc = bitcode(files)
        c.units |= set(files)
        ops = mir.target_enum(t)
        names = {v: k for k, v in ops.items()}
        insts = isa.insts(t)
        conds = {k: i for k, i in insts.items() if "Branch" in (i.get("Flag") or []) and has_prob(i)}
        cf = enum_values("cmmc/Target/ARM/ARM.hpp", "CondField", "cmmc::mir::ARM::") if t == "ARM" else {}
        cfn = {v: k for k, v in cf.items()}
        r = run_tool("spec", {"modules": bc, "root": r"InstInfo::inverseBranch$", "opaque": ["report(Fatal|Unreachable|NotImplemented)|DiagnosticsContext"],
                              "queries": [{"id": "x"}], "cfg": True})
        fns = [x for x in r["results"] if x.get("blocks")]
        if len(fns) != 1:
            c.undec("%s/inverse" % t, "inverseBranch not found")
            continue
        work = []
        for name, i in conds.items():
            if t == "ARM":
                work += [(name, i, k) for k in isa.ARMCOND if k in cf and k != "AL"]
            else:
                work.append((name, i, None))
        for name, i, cond in work:
            key = "%s/%s%s" % (t, name, "." + cond if cond else "")
            if t != "ARM" and name not in isa.BRANCH[t]:
                c.undec(key, "unknown branch instruction")
                continue
            n += 1
            operands, tgt, prob, cfi = [], None, None, None
            for k, o in enumerate(i["operands"]):
                if o["class"] == "Reloc":
                    tgt = k
                    operands.append(("reloc", ("obj", "old")))
                elif o["class"] == "Prob":
                    prob = k
                    operands.append(("prob", 0.25))
                elif o["class"] == "CondField":
                    cfi = k
                    operands.append(("imm", cf[cond], ("obj", "ty%d" % k)))
                else:
                    operands.append(("reg", 1000 + k, ("obj", "ty%d" % k)))
            nargs = fns[0].get("args", 3)
            inst, new = "arg%d" % (nargs - 2), ("obj", "new")
            m = Machine(fns[0], lambda *a: None, [None] * (nargs - 1) + [new], mem0=L.inst(inst, ops[name], operands))
            try:
                ts = [x for x in m.run() if x.end != "unreachable"]
            except (Undecided, Trap) as e:
                c.undec(key, str(e))
                continue
            if not ts or any(x.end == "noreturn" for x in ts):
                c.bad(key + "/refused", f, "%s: reversing %s%s is not handled although the branch is conditional" % (t, name, " " + cond if cond else ""))
                continue
            ok = True
            for x in ts:
                op, out = L.read_inst(x.mem, inst, len(operands))
                nn = names.get(op)
                if nn is None or any(o is None for o in out):
                    c.undec(key, "result not recognised: %r %r" % (op, out))
                    ok = None
                    break
                if t == "ARM":
                    nc = cfn.get(out[cfi][1]) if out[cfi][0] == "imm" else None
                    if nc is None:
                        c.undec(key, "condition %r" % (out[cfi],))
                        ok = None
                        break
                    good = nn == name and nc in isa.ARMCOND and all(a != b for a, b in zip(isa.arm_truth(cond), isa.arm_truth(nc)))
                    what = "%s%s" % (nn, "." + nc)
                else:
                    fn = isa.BRANCH[t].get(nn)
                    good = fn is not None and all(fn(a, b) != isa.BRANCH[t][name](a, b) for a, b in isa.SAMPLES)
                    good = good and [o["class"] for o in insts[nn]["operands"]] == [o["class"] for o in i["operands"]]
                    what = nn
                if not good:
                    ok = False
                    c.bad(key + "/condition", f, "%s: reversing %s%s gives %s, which is not taken in exactly the opposite cases" % (t, name, "." + cond if cond else "", what))
                for k, o in enumerate(out):
                    if k == tgt:
                        if o != ("reloc", new, o[2]):
                            ok = False
                            c.bad(key + "/target", f, "%s: reversing %s leaves the target operand at %r instead of the new block" % (t, name, o[:2]))
                    elif k == prob:
                        if o[0] != "prob" or o[1] != 0.75:
                            ok = False
                            c.bad(key + "/probability", f, "%s: reversing %s with probability 0.25 leaves %r instead of 0.75" % (t, name, o[:2]))
                    elif k == cfi:
                        pass
                    elif o[:2] != (operands[k][0], operands[k][1]):
                        ok = False
                        c.bad(key + "/operand%d" % k, f, "%s: reversing %s changes operand %d" % (t, name, k))
            if ok:
                c.ok({"branch": key, "becomes": what})
    c.cov["branches"] = n
    c.floor(30, "conditional branches")


main("C22", "other", "abstract interpretation of every target's inverseBranch on each conditional branch of its instruction table (operands in memory, opcode concrete): "
     "the truth sets of old and new condition partition the operand space, the target becomes the given block, the probability its complement, other operands are unchanged", body)
