"""Instruction tables of the targets, as the project's own generator reads them from <Target>.yml."""
import importlib.util
import yaml
from vlib import *

_gen = None


def generator():
    global _gen
    if _gen is None:
        sys.dont_write_bytecode = True
        p = REPO + "/cmmc/Target/Template/generate.py"
        spec = importlib.util.spec_from_file_location("vk_generate", p)
        _gen = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_gen)
    return _gen


def yml(target):
    return "%s/cmmc/Target/%s/%s.yml" % (REPO, target, target)


def insts(target):
    """name -> {"operands": [{name, class, flag, idx}], "Format": [...], "Flag": [...]}"""
    g = generator()
    g.comment_sep = "#"
    try:
        return g.load_inst_info(yml(target))[1]
    except Broken:
        raise
    except Exception as e:
        raise Broken("instruction table of %s not readable: %r" % (target, e))


# ---- conditions of the conditional branches, over operand values (32-bit)
def _u(x):
    return x & 0xffffffff


def _b(f):
    return lambda a, b: bool(f(a, b))


BRANCH = {
    "RISCV": {"BEQ": _b(lambda a, b: a == b), "BNE": _b(lambda a, b: a != b), "BLT": _b(lambda a, b: a < b), "BGE": _b(lambda a, b: a >= b),
              "BLE": _b(lambda a, b: a <= b), "BGT": _b(lambda a, b: a > b), "BLTU": _b(lambda a, b: _u(a) < _u(b)), "BGEU": _b(lambda a, b: _u(a) >= _u(b)),
              "BLEU": _b(lambda a, b: _u(a) <= _u(b)), "BGTU": _b(lambda a, b: _u(a) > _u(b))},
    "MIPS": {"BEQ": _b(lambda a, b: a == b), "BNE": _b(lambda a, b: a != b), "BLTZ": _b(lambda a, b: a < 0), "BLEZ": _b(lambda a, b: a <= 0),
             "BGTZ": _b(lambda a, b: a > 0), "BGEZ": _b(lambda a, b: a >= 0), "BC1F": _b(lambda a, b: a == 0), "BC1T": _b(lambda a, b: a != 0)},
    "TAC": {"BranchEq": _b(lambda a, b: a == b), "BranchNe": _b(lambda a, b: a != b), "BranchLt": _b(lambda a, b: a < b), "BranchLe": _b(lambda a, b: a <= b),
            "BranchGt": _b(lambda a, b: a > b), "BranchGe": _b(lambda a, b: a >= b)},
}
SAMPLES = [(a, b) for a in (0, 1, 2, -1, -2, 2**31 - 1, -2**31) for b in (0, 1, 2, -1, -2, 2**31 - 1, -2**31)]
# ARM condition codes over (N, Z, C, V)
ARMCOND = {"EQ": lambda n, z, c, v: z, "NE": lambda n, z, c, v: not z, "HS": lambda n, z, c, v: c, "LO": lambda n, z, c, v: not c,
           "MI": lambda n, z, c, v: n, "PL": lambda n, z, c, v: not n, "HI": lambda n, z, c, v: c and not z, "LS": lambda n, z, c, v: not c or z,
           "GE": lambda n, z, c, v: n == v, "LT": lambda n, z, c, v: n != v, "GT": lambda n, z, c, v: not z and n == v,
           "LE": lambda n, z, c, v: z or n != v, "VS": lambda n, z, c, v: v, "VC": lambda n, z, c, v: not v, "AL": lambda n, z, c, v: True}


def arm_truth(cond):
    return tuple(bool(ARMCOND[cond](n, z, c, v)) for n in (0, 1) for z in (0, 1) for c in (0, 1) for v in (0, 1))


def arm_int_flags(a, b):
    """flags of CMP a, b"""
    d = (a - b) & 0xffffffff
    sd = d - (1 << 32) if d >> 31 else d
    return (d >> 31, int(d == 0), int(_u(a) >= _u(b)), int(sd != a - b))


# VCMP + VMRS: less, equal, greater, unordered
ARM_FLAGS_FP = {"<": (1, 0, 0, 0), "=": (0, 1, 1, 0), ">": (0, 0, 1, 0), "u": (0, 0, 1, 1)}
