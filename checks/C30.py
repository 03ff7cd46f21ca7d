"""ARM instruction selection keeps the meaning of every instruction tree it rewrites."""
from _common import *
import isel


def body(c):
    T = isel.Target("ARM")
    files = ["Target/ARM/ARMISelInfo.cpp", "Target/ARM/ARMInstInfo.cpp", "CodeGen/ISelInfo.cpp"]
    S = isel.selector(T, files, "ARMISelInfo::matchAndSelect$")
    c.units.update(files)
    regs = const_values("cmmc/Target/ARM/ARM.hpp", "cmmc::mir::ARM::", ["CC", "FCC"])
    conds = enum_values("cmmc/Target/ARM/ARM.hpp", "CondField", "cmmc::mir::ARM::")
    deep = c.tier == "thorough"
    cf = [isel.Op("imm", v, "CondField") for n, v in conds.items() if n != "AL"]
    sh = [isel.Op("imm", T.num[n], "ShiftType") for n in ("LSL", "LSR", "ASR")]
    P = isel.Planner(T, ["Bool", "Int32"], "Int32", None, {"CC": regs["CC"], "FCC": regs["FCC"], "CondField": cf, "ShOp": sh, "Shamt": [isel.Op("imm", k, "Int32") for k in (1, 5, 31)]})
    X = isel.Explorer(T, S, P, isel.ARM(T, regs, conds), [1000, 100, 20] if deep else [300, 40])
    isel.judge(c, X, 600 if deep else 420, 1000)


main("C30", "other", "the selector's residual control flow, specialised to one generic instruction tree (operand kinds, types and immediate values fixed, definitions supplied on demand), is "
     "interpreted abstractly; the instructions it emits, read through their printed form and the ISA manual, must have the effect of the instructions they replace on a grid of corner values", body)
