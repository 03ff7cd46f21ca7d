"""MIPS instruction selection keeps the meaning of every instruction tree it rewrites."""
from _common import *
import isel


def body(c):
    T = isel.Target("MIPS")
    files = ["Target/MIPS/MIPSISelInfo.cpp", "CodeGen/ISelInfo.cpp"]
    S = isel.selector(T, files, "MIPSISelInfo::matchAndSelect$")
    c.units.update(files)
    regs = const_values("cmmc/Target/MIPS/MIPS.hpp", "cmmc::mir::MIPS::", ["X0", "HILO", "CC"])
    deep = c.tier == "thorough"
    P = isel.Planner(T, ["Bool", "Int32"], "Int32", regs["X0"], {"HILO": regs["HILO"], "CC": regs["CC"], "Zero": regs["X0"]})
    X = isel.Explorer(T, S, P, isel.MIPS(T, regs), [3000, 300, 60] if deep else [1000, 100])
    isel.judge(c, X, 600 if deep else 420, 1000)


main("C29", "other", "the selector's residual control flow, specialised to one generic instruction tree (operand kinds, types and immediate values fixed, definitions supplied on demand), is "
     "interpreted abstractly; the instructions it emits, read through their printed form and the ISA manual, must have the effect of the instructions they replace on a grid of corner values", body)
