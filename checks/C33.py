"""Legalisation of machine instructions keeps what they compute."""
from _common import *
import isel, legal, mach
from isel import Op


def one(job):
    t, tier = job
    c = legal.Record(tier)
    deep = tier == "thorough"
    for t in (t,):
        T = isel.Target(t)
        files = ["Target/%s/%sISelInfo.cpp" % (t, t), "CodeGen/ISelInfo.cpp"] + (["Target/ARM/ARMInstInfo.cpp"] if t == "ARM" else [])
        G = legal.Legaliser(T, files)
        c.units.update(files)
        hdr, ns = "cmmc/Target/%s/%s.hpp" % (t, t), "cmmc::mir::%s::" % t
        special, zero = {}, None
        if t == "RISCV":
            k = const_values(hdr, ns, ["X0", "X2", "X10", "X11", "X12", "F10", "F11", "F12"])
            regs = {"gpr": [k["X10"], k["X11"], k["X12"]], "fpr": [k["F10"], k["F11"], k["F12"]], "sp": k["X2"], "ptr": "Int64", "disp": legal.DISP}
            M, ints, scratch, zero = isel.RISCV(T), ["Int32", "Int64"], [], 0
            arith = [n for n in T.num if [(o["class"], o["flag"]) for o in (T.info.get(n) or {}).get("operands", [])] == [("GPR", "Def"), ("GPR", "Use"), ("GPR", "Use")] and M.tmpl.get(n, ("",))[0].split(" ")[0] in mach.RV]
            special = {"Select_GPR_Arith": {"Imm": [Op("imm", T.num[n], "Special") for n in sorted(arith)]}}
            for n in ("LoadImm32", "LoadImm64"):
                special[n] = {"NonZeroImm" + n[-2:]: [Op("imm", v, "Int" + n[-2:]) for v in legal.SWEEP if v and -2**31 <= v < 2**31 or n == "LoadImm64"]}
        elif t == "MIPS":
            k = const_values(hdr, ns, ["X0", "X8", "X9", "X10", "X29", "F4", "F6", "F8", "HILO", "CC"])
            regs = {"gpr": [k["X8"], k["X9"], k["X10"]], "fpr": [k["F4"], k["F6"], k["F8"]], "sp": k["X29"], "ptr": "Int32", "disp": [0]}
            M, ints, scratch, zero = isel.MIPS(T, k), ["Int32"], [], k["X0"]
            special = {n: {"CC": k["CC"], "HILO": k["HILO"], "Zero": k["X0"]} for n in T.num}
        else:
            k = const_values(hdr, ns, ["R4", "R5", "R6", "R12", "R13", "S4", "S5", "S6", "CC", "FCC"])
            regs = {"gpr": [k["R4"], k["R5"], k["R6"]], "fpr": [k["S4"], k["S5"], k["S6"]], "sp": k["R13"], "ptr": "Int32", "disp": legal.DISP}
            conds = enum_values(hdr, "CondField", ns)
            M, ints, scratch = isel.ARM(T, k, conds), ["Int32"], [k["R12"]]
            cf = [Op("imm", v, "CondField") for n, v in conds.items() if n != "AL"]
            plain = [n for n in T.num if n + "_Cond" in T.num and n.lower() in M.DP]
            special = {n: {"CC": k["CC"], "FCC": k["FCC"], "CondField": cf} for n in T.num}
            special["CondArith_GPR"] = dict(special["CondArith_GPR"], Imm=[Op("imm", T.num[n], "Special") for n in sorted(plain)])
            special["PseudoFMA"] = {"Imm": [Op("imm", T.num[n], "Special") for n in ("VMLA_F32", "VMLS_F32", "VNMLA_F32", "VNMLS_F32") if n in T.num]}
            special["PseudoIntOpWithOp2_Cond"] = dict(special["PseudoIntOpWithOp2_Cond"], Imm=[Op("imm", T.num[n + "_Cond"], "Special") for n in sorted(plain)])
        P = isel.Planner(T, (["Bool"] if t != "RISCV" else []) + ints, regs["ptr"], zero, {})
        P.deep = deep
        J = legal.Judge(c, T, M, G, scratch)
        legal.pre(J, P, special)
        legal.post(J, regs, ints)
        legal.stack(J, regs, ints)
        legal.adjust(J, regs)
        legal.sequence(J, regs)
    return c


def body(c):
    legal.layout()
    legal.targets(c, one)
    c.floor(40, "legalised instructions")


main("C33", "other", "the residual control flow of the legalisation functions, specialised to one instruction (operand kinds, types and immediates fixed), is interpreted abstractly together with the instruction and "
     "block lists; what is left in the lists, read through the printed form and the ISA manual, must have the effect of the instruction on a grid of corner values", body)
