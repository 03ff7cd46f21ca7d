"""What a target accepts as an immediate is what the encoding holds."""
from _common import *
import isa, isel, legal, mach
import instdesc
from absint import Machine, Ptr, Undecided, Stop, sym, const_table
from isel import Op, Inst, Bad, Unknown, Undef

VALUES = sorted(set(isel.WIDE) | set(legal.SWEEP) | set(range(-40, 80)) | {s * v for s in (1, -1) for v in (250, 251, 252, 253, 254, 255, 256, 257, 1016, 1018, 1019, 1020, 1021, 1024, 1028, 4094, 4095, 4096, 4097, 0x3fc00, 0x1fe, 0x101, 0xff0, 0xfe01)} |
                {((0xff << k) | (0xff >> (32 - k))) & 0xffffffff for k in range(1, 32)} | {((0x81 << k) | (0x81 >> (32 - k))) & 0xffffffff for k in range(1, 32)})
REG = {"GPR": "gpr", "BaseLike": "gpr", "IRegOrImm": None, "Op2": None, "FPR": "fpr"}
# operands whose range the emitting code answers for (C30), not the description
OWN = {("ARM", "USAT"), ("ARM", "SSAT"), ("ARM", "VMOV_Constant")}


def text(t, names):
    s = '#include "%s/cmmc/%s"\nnamespace cmmc::mir::%s {\n' % (REPO, instdesc.source(t), t)
    for k, n in enumerate(names):
        s += 'extern "C" bool vk_v%d(const MIRInst& m, const CodeGenContext& c) { const %sInstInfo%s x; return x.verify(m, c); }\n' % (k, t, n)
    return s + "}\n"


def target(job):
    t, tier = job
    c = legal.Record(tier)
    T = isel.Target(t)
    L = T.L
    hdr, ns = "cmmc/Target/%s/%s.hpp" % (t, t), "cmmc::mir::%s::" % t
    if t == "RISCV":
        k = const_values(hdr, ns, ["X10", "X11", "F10"])
        M, gpr, fpr, one = isel.RISCV(T), k["X10"], k["F10"], {"CC": Op("imm", T.cmp["ICmpSignedLessThan"], "Special")}
    elif t == "MIPS":
        k = const_values(hdr, ns, ["X0", "X8", "F4", "HILO", "CC"])
        M, gpr, fpr, one = isel.MIPS(T, k), k["X8"], k["F4"], {"CC": Op("reg", k["CC"], "Special"), "HILO": Op("reg", k["HILO"], "Special"), "Zero": Op("reg", k["X0"], "Int32")}
    else:
        k = const_values(hdr, ns, ["R4", "S4", "CC", "FCC"])
        conds = enum_values(hdr, "CondField", ns)
        M, gpr, fpr = isel.ARM(T, k, conds), k["R4"], k["S4"]
        one = {"CC": Op("reg", k["CC"], "Special"), "FCC": Op("reg", k["FCC"], "Special"), "CondField": Op("imm", conds["EQ"], "CondField"), "ShOp": Op("imm", T.num["LSL"], "ShiftType")}
    one["Align"] = Op("imm", 4, "Special")
    one["Prob"] = Op("prob", None)
    one["Reloc"] = Op("reloc", "l")
    info = isa.insts(t)
    names = [n for n in info if any("Imm" in o["class"] or o["class"] in ("Op2", "Op2Constant", "Shamt", "LoadStoreShamt", "FP32Zero") for o in info[n]["operands"])]
    bc = harness("imm" + t, text(t, names))
    if bc is None:
        for n in names:
            c.undec("%s/%s" % (t, n), "the description does not compile in the harness")
        return c
    r = run_tool("spec", {"modules": [bc], "root": "^vk_v[0-9]+$", "opaque": ["checkISASpecificOperands", "report(Fatal|Unreachable|NotImplemented)"], "queries": [{"id": "x"}], "cfg": True, "globals": "."})
    fn = {x["name"]: x for x in r["results"]}
    table = {}
    for x in r["results"]:
        table.update(const_table(x["globals"]))
    c.units.add(instdesc.source(t))
    c.units.add("Target/%s/%s.hpp" % (t, t))
    INST = ("obj", "inst")
    B = ("obj", "ctx")

    def call(m, n, a, e):
        if "checkISASpecificOperands" in n:
            return 1
        if e.get("noreturn") or "report" in n:
            raise Stop("noreturn")
        return None

    def accepts(f, inst):
        ts = Machine(f, call, [Ptr(INST), Ptr(B)], mem0=T.cells(INST, inst), table=table, visits=70, max_traces=4, max_steps=4000).run()
        if len(ts) != 1 or ts[0].end != "ret" or sym(ts[0].ret):
            raise Undecided("the answer is not determined: %s" % [(x.end, str(x.ret)[:60]) for x in ts][:3])
        return bool(ts[0].ret & 1)

    for idx, n in enumerate(names):
        if (t, n) in OWN:
            continue
        f = fn.get("vk_v%d" % idx)
        key = "%s/%s" % (t, n)
        if f is None:
            c.undec(key, "verify not found")
            continue
        ops = info[n]["operands"]
        for p, o in enumerate(ops):
            cl = o["class"]
            if not ("Imm" in cl or cl in ("Op2", "Op2Constant", "Shamt", "LoadStoreShamt", "FP32Zero")) or cl == "Imm":
                continue
            kk = "%s.%d" % (key, p)
            fill, why = [], None
            for q, x in enumerate(ops):
                d = x["class"]
                if q == p:
                    fill.append(None)
                elif d in one:
                    fill.append(one[d])
                elif d in ("FPR",):
                    fill.append(Op("reg", fpr, "Float32"))
                elif d in ("GPR", "BaseLike", "IRegOrImm", "Op2"):
                    fill.append(Op("reg", gpr, "Int32"))
                elif d == "LoadStoreShamt":
                    fill.append(Op("imm", 0, "LoadStoreShamt"))
                elif d == "Imm" and t == "ARM":
                    fill.append(Op("imm", T.num["ADD"], "Special"))
                elif "Imm" in d or d in ("Op2Constant", "Shamt"):
                    fill.append(Op("imm", 4, "Int32"))
                else:
                    why = "operand of class %s" % d
            if why:
                c.undec(kk, why)
                continue
            ty = "LoadStoreShamt" if cl == "LoadStoreShamt" else "Float32" if cl == "FP32Zero" else "Int64" if t == "RISCV" else "Int32"
            bad = und = None
            yes = no = 0
            for v in VALUES:
                i = Inst(n, fill[:p] + [Op("imm", v, ty)] + fill[p + 1:])
                env = {gpr: 0x1000, fpr: 0x3f800000}
                if t == "ARM":
                    env[k["CC"]] = (0, 1, 1, 0)
                    env[k["FCC"]] = (0, 1, 1, 0)
                if t == "MIPS":
                    env[k["HILO"]] = env[k["CC"]] = 0
                if t == "ARM" and n.endswith("S") and n[:-1] in T.num:
                    i0 = Inst(n[:-1], i.ops[:len(info[n[:-1]]["operands"])])    # the same encoding with the S bit
                else:
                    i0 = i
                try:
                    M.step(i0, env, mach.Memory(bits=M.wide))
                    enc = True
                except Undef:
                    enc = True
                except Bad as x:
                    if "encoded" not in str(x) and "missing" not in str(x) and "scale" not in str(x) and "scaled" not in str(x):
                        und = "not modelled: %s" % x
                        break
                    enc = False
                except Unknown as x:
                    und = str(x)
                    break
                try:
                    acc = accepts(f, i)
                except Undecided as x:
                    und = str(x)
                    break
                yes += acc
                no += not acc
                if acc and not enc:
                    bad = "%s accepts %d (%#x), which its encoding cannot hold" % (n, v, v & (2**64 - 1))
                    break
                # a class may leave out zero (it has a shorter form), scales nobody uses, and constants an assembler splits
                if enc and not acc and not (v == 0 and "NonZero" in cl) and -2**31 <= v < 2**31 and cl != "LoadStoreShamt" and not n.startswith("LoadImm"):
                    bad = "%s refuses %d, which its encoding holds" % (n, v)
                    break
            c.cov["values"] = c.cov.get("values", 0) + yes + no
            if bad:
                c.bad("%s/%s" % (kk, cl), "cmmc/Target/%s/%s" % (t, t), bad)
            elif und:
                c.undec(kk, und)
            elif not yes:
                c.undec(kk, "no operand accepted at all")
            else:
                c.ok({"instruction": key, "operand": p, "class": cl, "accepted": yes, "refused": no})
    return c


def body(c):
    legal.targets(c, target)
    c.floor(60, "immediate operands")


main("C20", "other", "abstract interpretation of the compiled operand verifier of every instruction with an immediate operand, specialised to one immediate at a time; it must accept exactly the values the "
     "instruction's encoding (ISA model) can hold, on a grid around every power of two and encoding boundary", body)
