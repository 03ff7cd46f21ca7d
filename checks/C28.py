"""RISC-V instruction selection keeps the meaning of every instruction tree it rewrites."""
from _common import *
import isel


def body(c):
    T = isel.Target("RISCV")
    S = isel.selector(T, ["Target/RISCV/RISCVISelInfo.cpp", "CodeGen/ISelInfo.cpp"], "RISCVISelInfo::matchAndSelect$")
    c.units.update(["Target/RISCV/RISCVISelInfo.cpp", "CodeGen/ISelInfo.cpp"])
    deep = c.tier == "thorough"
    X = isel.Explorer(T, S, isel.Planner(T, ["Bool", "Int32", "Int64"], "Int64", 0), isel.RISCV(T), [500, 60, 16] if deep else [300, 40])
    isel.judge(c, X, 600 if deep else 420, 1000)


main("C28", "other", "the selector's residual control flow, specialised to one generic instruction tree (operand kinds, types and immediate values fixed, definitions supplied on demand), is "
     "interpreted abstractly; the instructions it emits, read through their printed form and the ISA manual, must have the effect of the instructions they replace on a grid of corner values", body)
