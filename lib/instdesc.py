"""What the instruction descriptions of a target say, read from the compiled description classes (a
harness instantiates every description and the residual program is read off: operand count, operand
roles, flags, and the sequence of texts and operands the printer writes), and what the instruction
set says, as a table written from the ISA manuals."""
import re
from vlib import *
from terms import unesc
from absint import Machine, Ptr
import isa, mir

FLAG_H = "cmmc/CodeGen/InstInfo.hpp"
OPAQUE = ["report(Fatal|Unreachable|NotImplemented)", "^std::(basic_)?ostream", "^std::__ostream", "^vk_(sep|num|op|flag|ver|cls)$", "operator<<"]


def source(t):
    return "CodeGen/InstInfo.cpp" if t == "Generic" else "Target/%s/%sInstInfo.cpp" % (t, t)


def base(t, I):
    s = '#include "%s/cmmc/%s"\nnamespace cmmc::mir::%s {\n' % (REPO, source(t), t)
    s += 'extern "C" { void vk_sep(unsigned); void vk_num(unsigned,unsigned); void vk_flag(unsigned,unsigned); void vk_op(unsigned,unsigned,unsigned); }\n'
    tab, pr = "", ""
    for k, (n, i) in enumerate(I.items()):
        tab += " { const %sInstInfo%s x; vk_num(%d,x.getOperandNum()); vk_flag(%d,x.getInstFlag());" % (t, n, k, k)
        for o in range(len(i["operands"])):
            tab += " vk_op(%d,%d,x.getOperandFlag(%d));" % (k, o, o)
        tab += " }\n"
        pr += " { const %sInstInfo%s x; vk_sep(%d); x.print(o,m,false); }\n" % (t, n, k)
    return s + 'extern "C" void vk_tab() {\n' + tab + '}\nextern "C" void vk_print(std::ostream& o, const MIRInst& m) {\n' + pr + "}\n"


class Desc:
    __slots__ = ("name", "num", "flags", "roles", "text", "classes", "loc")


def straight(bc, root, extra=()):
    r = [x for x in run_tool("spec", {"modules": [bc], "root": root, "opaque": OPAQUE + list(extra), "queries": [{"id": "x"}], "cfg": True})["results"] if x.get("blocks")]
    return r[0] if len(r) == 1 else None


def read(t):
    """(descriptions by name, why not)"""
    I = isa.insts(t)
    bc = harness("isa" + t, base(t, I) + "}\n")
    if bc is None:
        return None, "the descriptions of %s do not compile in the harness" % t
    out, names = {}, list(I)
    for n in names:
        d = out[n] = Desc()
        d.name, d.num, d.flags, d.roles, d.text = n, None, None, {}, []
        d.classes = [o["class"] for o in I[n]["operands"]]
        d.loc = "cmmc/Target/%s/%s.yml" % (t, t)
    f = straight(bc, "^vk_tab$")
    if f is None:
        return None, "description accessors of %s not found" % t

    def tab(m, n, a, e):
        if n == "vk_num":
            out[names[a[0]]].num = a[1]
        elif n == "vk_flag":
            out[names[a[0]]].flags = a[1]
        elif n == "vk_op":
            out[names[a[0]]].roles[a[1]] = a[2]
        return 0
    try:
        ts = Machine(f, tab, [], max_steps=200000).run()
    except Exception as e:
        return None, "accessors of %s: %r" % (t, e)
    if len(ts) != 1:
        return None, "accessors of %s are not constant" % t
    f = straight(bc, "^vk_print$")
    if f is None:
        return None, "printer of %s not found" % t
    size, off = operand_layout()
    cur = [None]

    def pr(m, n, a, e):
        if n == "vk_sep":
            cur[0] = out[names[a[0]]].text
            return 0
        if "operator<<" in n:
            x = a[1] if len(a) > 1 else None
            if isinstance(x, str) and x.startswith('"'):
                cur[0].append(unesc(x[1:-1]) if "\\" in x else x[1:-1])
            elif isinstance(x, int) and "char" in e.get("sig", n):
                cur[0].append(chr(x & 255))
            elif isinstance(x, Ptr):
                v = m.load(x, 8, "ptr")
                if isinstance(v, Ptr) and v.base == "arg1" and (v.off - off) % size == 0 and v.off >= off:
                    cur[0].append((v.off - off) // size)
                else:
                    cur[0].append(("?", repr(v)))
            else:
                cur[0].append(("?", repr(x)))
            return a[0]
        return None
    try:
        ts = Machine(f, pr, [], max_steps=200000).run()
    except Exception as e:
        return None, "printer of %s: %r" % (t, e)
    if len(ts) != 1:
        return None, "the printed text of %s depends on more than the operands" % t
    return out, None


def operand_layout():
    """(size of an operand, offset of operand 0 in an instruction)"""
    L = mir.Layout()
    return L.stride, L.base


LET = {1: "u", 2: "d", 4: "m"}


def shape(d):
    """printed text with the roles of the operands, roles of the operands that are not printed"""
    txt, seen = "", set()
    for p in d.text:
        if isinstance(p, int):
            txt += "{%s}" % LET.get(d.roles.get(p), "?")
            seen.add(p)
        elif isinstance(p, str):
            txt += p
        else:
            txt += "<%s>" % p[1]
    hid = "".join(sorted(LET.get(r, "?") for k, r in d.roles.items() if k not in seen))
    return re.sub(r"\s+", " ", txt).strip(), hid


# ------------------------------------------------------------------ the instruction sets
# kind | text after the mnemonic, {d} written, {u} read, {m} immediate or symbol | roles of what is not printed :: NAME=mnemonic or mnemonic
TABLE = {}
TABLE["RISCV"] = """
plain| {d}, {u}, {m}| :: addi slti sltiu andi ori xori addiw slli srli srai slliw srliw sraiw slli.uw rori roriw
const| {d}, {m}| :: lui
pcrel| {d}, {m}| :: auipc
plain| {d}, {u}, {u}| :: add slt sltu and or xor sll srl sub sra addw subw sllw srlw sraw mul mulh mulhsu mulhu mulw div divu rem remu divuw remuw
plain| {d}, {u}, {u}| :: add.uw sh1add sh1add.uw sh2add sh2add.uw sh3add sh3add.uw andn orn xnor min minu max maxu rol rolw ror rorw
plain| {d}, {u}, {u}|mmm :: divw remw
call| {m}| :: jal
ret|| :: ret
branch| {u}, {u}, {m}|m :: beq bne blt ble bgt bge bltu bleu bgtu bgeu
ijump| {u}|m :: jr
jump| {m}| :: j
trap|| :: unimp
load| {d}, {m}({u})|m :: lb lh lw lbu lhu ld lwu flw
store| {u}, {m}({u})|m :: sb sh sw sd fsw
loadstore| {d}, {u}, ({u})| :: AMOADD_W=amoadd.w.aqrl
plain| {d}, {u}, {u}| :: fadd.s fsub.s fmul.s fdiv.s fmin.s fmax.s feq.s flt.s fle.s fsgnj.s
plain| {d}, {u}| :: fneg.s fabs.s fclass.s fmv.x.w fmv.w.x fcvt.s.w fcvt.s.wu sext.b sext.h sext.w zext.h zext.w clz clzw ctz ctzw cpop cpopw orc.b rev8
copy| {d}, {u}| :: fmv.s MoveGPR=mv
plain| {d}, {u}, rtz| :: fcvt.w.s fcvt.wu.s
plain| {d}, {u}, {u}, {u}| :: fmadd.s fmsub.s fnmadd.s fnmsub.s
const| {d}, {m}| :: LoadImm12=li LoadImm32=li LoadImm64=li LoadImm64Complex=li
pseudo| {d}, {u}, {u}, {u}, {u}, {m}| :: Select_GPR_GPR=select_gpr_gpr Select_FPR_GPR=select_fpr_gpr
pseudo| {d}, {u}, {u}, {u}, {u}, {m}, {m}| :: Select_GPR_Arith=select_gpr_arith
"""
TABLE["MIPS"] = """
plain| {d}, {u}, {u}| :: addu and nor or sllv srav srlv subu xor slt sltu
plain| {d}, {u}, {m}| :: addiu slti sltiu andi ori xori sll sra srl
plain| {d}, {u}, {u}| :: add.s sub.s mul.s div.s
plain| {d}, {u}| :: abs.s neg.s cvt.s.w trunc.w.s
trap|| :: break
jump delay| {m}| :: b
branch delay| {m}|mu :: bc1f bc1t
branch delay| {u}, {u}, {m}|m :: beq bne
branch delay| {u}, {m}|m :: bgez bgtz blez bltz
plain| {u}, {u}|d :: c.eq.s c.ueq.s c.olt.s c.ole.s c.ult.s c.ule.s
plain| {u}, {u}|d :: mult
plain| {u}, {u}, {u}|d :: div divu
call delay| {m}| :: jal
ret delay| {u}| :: jr
ijump delay| {u}|m :: JR_IndirectJump=jr
load| {d}, {m}({u})| :: lb lbu lh lhu lw lwc1
store| {u}, {m}({u})| :: sb sh sw swc1
plain| {d}, {u}| :: mfc1
plain| {u}, {d}| :: mtc1
plain| {d}|u :: mfhi mflo
copy| {d}, {u}| :: mov.s MoveGPR=move
const| {d}, {m}| :: lui LoadImm16=li LoadImm32=li
nop|| :: Nop=nop
plain| {d}, {u}, {u}|u :: movn movz movf movt movt.s movf.s movz.s
pseudo| {d}, {u}, {u}, {u}| :: Select_GPR_GPR=select_gpr_gpr Select_FCC_FPR_FPR=select_fcc_fpr_fpr Select_GPR_FPR_FPR=select_gpr_fpr_fpr
pseudo| {d}, {u}, {m}| :: FCC2GPR=fcc2gpr
"""
TABLE["ARM"] = """
plain| {d}, {u}, {u}| :: add sub and orr eor orn bic rsb
multi| {d}, {u}, {u}|d :: adds subs ands orrs eors orns bics rsbs
plain|{m} {d}, {u}, {u}|uu :: ADD_Cond=add SUB_Cond=sub AND_Cond=and ORR_Cond=orr EOR_Cond=eor ORN_Cond=orn BIC_Cond=bic RSB_Cond=rsb
plain| {d}, {u}, {u}, {m} {u}| :: ADD_Fused=add SUB_Fused=sub AND_Fused=and ORR_Fused=orr EOR_Fused=eor ORN_Fused=orn BIC_Fused=bic RSB_Fused=rsb
plain| {d}, {u}, {u}| :: mul smmul udiv sel asr lsl lsr ror
plain| {d}, {u}, {u}, {u}| :: smmla mla mls
plain| {d}, {u}| :: sxtb sxth uxtb uxth clz mov mvn
plain| {d}, {u}, {u}|mm :: sdiv
const| {d}, {u}| :: MOV_Constant=mov MVN_Constant=mvn
multi| {d}, {u}|d :: movs mvns
copy| {d}, {u}| :: MoveGPR=mov VMOV=vmov.f32
plain|{m} {d}, {u}|uu :: MOV_Cond=mov MVN_Cond=mvn
plain| {u}, {u}|d :: cmp cmn
jump| {m}| :: b
branch|{m} {m}|mu :: B_Cond=b
call| {m}| :: bl
ret| {u}| :: bx
ijump| {u}|m :: BX_IndirectJump=bx
load| {d}, [{u}, {m}]| :: vldr ldr ldrb ldrsb ldrh ldrsh
load| {d}, [{u}, {u}{m}]| :: LDR_Fused=ldr LDRB_Fused=ldrb LDRSB_Fused=ldrsb LDRH_Fused=ldrh LDRSH_Fused=ldrsh
store| {u}, [{u}, {m}]| :: vstr str strb strh
store| {u}, [{u}, {u}{m}]| :: STR_Fused=str STRB_Fused=strb STRH_Fused=strh
const| {d}, {m}| :: movw
plain|{m} {d}, {m}|uu :: MOVW_Cond=movw
plain| {d}, {m}|u :: movt
plain| {d}, {u}, {u}| :: vadd.f32 vsub.f32 vmul.f32 vnmul.f32 vdiv.f32
plain| {d}, {u}, {u}|u :: vmla.f32 vmls.f32 vnmla.f32 vnmls.f32
plain| {d}, {u}| :: vneg.f32 vabs.f32 vcvt.f32.s32 vcvt.s32.f32
plain| {u}, {u}|d :: vcmp.f32
plain| {u}, {m}|d :: VCMP_F32_WithZero=vcmp.f32
plain| {d}, {u}| :: TRANSFER_FPSCR_FLAG=vmrs VMOV_GPR2FPR=vmov VMOV_FPR2GPR=vmov
plain|{m}.f32 {d}, {u}|uu :: VMOV_Cond=vmov
const| {d}, {m}| :: VMOV_Constant=vmov.f32
store order| {m}| :: push vpush
load order| {m}| :: pop vpop
loadret order| {m}| :: POP_RET=pop
plain| {d}, {m}, {u}| :: usat ssat
const| {d}, {m}| :: MOVT_MOVW_PAIR=movt_movw_pair
pseudo| {d}, {u}, {m}| :: NZCVFlag2GPR=nzcvflag2gpr
pseudo| {d}, {u}, {u}, {u}, {m}| :: Select_GPR=select_gpr Select_FPR=select_fpr
pseudo| {d}, {u}, {u}, {u}, {m}, {m}| :: CondArith_GPR=cond_arith_gpr
pseudo|{m} {d}, {u}, {u}, {u}, {m}, {u}| :: PseudoIntOpWithOp2_Cond=pseudo_int_op_with_op2
pseudo| {d}, {u}, {u}, {u}| :: PseudoSMax=pseudo_smax PseudoSMin=pseudo_smin PseudoSMax_Inverted=pseudo_smax_inverted PseudoSMin_Inverted=pseudo_smin_inverted
pseudo| {d}, {u}, {u}, {u}, {m}| :: PseudoFMA=pseudo_fma
trap| 0xdeff| :: UNIMP=.inst
"""
# generic machine code and three-address code: the text is free, the roles are those of the operand order
TABLE["Generic"] = """
jump|m :: Jump
branch|umm :: Branch
trap| :: Unreachable
load|dum :: Load
store|uum :: Store
plain comm|duu :: Add Mul And Or Xor SMin SMax FAdd FMul
plain|duu :: Sub UDiv URem Shl LShr AShr FSub FDiv
plain|duummm :: SDiv SRem
plain|du :: Neg Abs SExt ZExt Trunc FNeg FAbs FCast F2U F2S U2F S2F
plain|duuu :: FFma Select
plain|duum :: ICmp FCmp
copy|du :: Copy CopyFromReg
copy regdef|du :: CopyToReg
plain regdef|dm :: LoadImmToReg
const|dm :: LoadGlobalAddress LoadImm LoadStackObjectAddr
load|dm :: LoadRegFromStack
store|um :: StoreRegToStack
"""
TABLE["TAC"] = """
copy|{d} := {u}| :: Assign
plain|{d} := {u} + {u}| :: Add
plain|{d} := {u} - {u}| :: Sub
plain|{d} := {u} * {u}| :: Mul
plain|{d} := {u} / {u}| :: Div
const|{d} := &{m}| :: Addr
plain|{d} := &{m} + {u}| :: AddrOffset
load|{d} := *{u}| :: Fetch
store|*{u} := {u}| :: Deref
store|{u} := {u}| :: DerefObj
jump|GOTO {m}| :: Goto
branch|IF {u} == {u} GOTO {m}|m :: BranchEq
branch|IF {u} != {u} GOTO {m}|m :: BranchNe
branch|IF {u} < {u} GOTO {m}|m :: BranchLt
branch|IF {u} <= {u} GOTO {m}|m :: BranchLe
branch|IF {u} > {u} GOTO {m}|m :: BranchGt
branch|IF {u} >= {u} GOTO {m}|m :: BranchGe
ret|RETURN {u}| :: Return
call|READ {d}| :: Read
call|WRITE {u}| :: Write
call|{d} := CALL {m}| :: Call
push|ARG {u}| :: Arg
push|ARG &{m}| :: ArgAddr
"""
# what an instruction of each kind does; every one of these flags must be set exactly when it does
DOES = {"load": {"Load"}, "store": {"Store"}, "loadstore": {"Load", "Store"}, "call": {"Call"}, "ret": {"Return", "Terminator", "NoFallthrough"},
        "branch": {"Branch", "Terminator"}, "jump": {"Branch", "Terminator", "NoFallthrough"}, "ijump": {"IndirectJump", "Terminator", "NoFallthrough"},
        "trap": {"Terminator", "NoFallthrough"}, "loadret": {"Load", "Return", "Terminator", "NoFallthrough"}, "push": {"Push"}, "nop": {"Padding"}}
EXACT = ["Load", "Store", "Terminator", "Branch", "Call", "NoFallthrough", "Return", "IndirectJump", "WithDelaySlot", "Push", "RegDef"]
MODS = {"delay": "WithDelaySlot", "order": "InOrder", "regdef": "RegDef"}
# flags that may be set only on instructions of the kind
ONLY = {"RegCopy": ("copy",), "LoadConstant": ("const", "pcrel"), "Commutative": ("comm",)}
# flags that must be set on instructions of the kind
MUST = {"multi": "MultiDef", "pcrel": "PCRel", "nop": "Padding", "pseudo": "LegalizePreRA", "copy": "RegCopy"}


def table(t):
    """name -> (kinds, text, hidden roles)"""
    out = {}
    for l in TABLE[t].strip().splitlines():
        head, names = l.split(" :: ")
        p = head.split("|")
        for n in names.split():
            name, _, mn = n.partition("=")
            if not mn:
                mn = name
                name = name if t in ("Generic", "TAC") else name.upper().replace(".", "_")
            if t == "Generic":
                out[name] = (p[0].split(), None, p[1])
            elif t == "TAC":
                out[name] = (p[0].split(), p[1], p[2])
            else:
                out[name] = (p[0].split(), mn + p[1], p[2])
    return out


# ------------------------------------------------------------------ how operands print
RVNAMES = "zero ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6".split()
MIPSNAMES = "zero at v0 v1 a0 a1 a2 a3 t0 t1 t2 t3 t4 t5 t6 t7 s0 s1 s2 s3 s4 s5 s6 s7 t8 t9 k0 k1 gp sp fp ra".split()
ARMNAMES = ["r%d" % i for i in range(13)] + ["sp", "lr", "pc"]
GP = {"RISCV": [(n, "x%d" % i) + (("fp",) if n == "s0" else ()) for i, n in enumerate(RVNAMES)],
      "MIPS": [("$" + n, "$%d" % i) + (("$s8",) if n == "fp" else ()) for i, n in enumerate(MIPSNAMES)],
      "ARM": [(n, "r%d" % i) for i, n in enumerate(ARMNAMES)]}
RVF = ["ft%d" % i for i in range(8)] + ["fs0", "fs1"] + ["fa%d" % i for i in range(8)] + ["fs%d" % i for i in range(2, 12)] + ["ft%d" % i for i in range(8, 12)]
FP = {"RISCV": [("f%d" % i, n) for i, n in enumerate(RVF)], "MIPS": [("$f%d" % i,) for i in range(32)], "ARM": [("s%d" % i,) for i in range(32)]}
CONDS = ["EQ", "NE", "HS", "LO", "MI", "PL", "HI", "LS", "GE", "LT", "GT", "LE"]


def printing(c, t):
    """what the printer of the target writes for every register and for samples of the other operands"""
    hdr = "cmmc/Target/%s/%s.hpp" % (t, t)
    loc = "cmmc/" + source(t)
    ot = enum_values("cmmc/CodeGen/MIR.hpp", "OperandType", "cmmc::mir::")
    ns = "cmmc::mir::%s::" % t
    cases = []   # key, operand (kind, value, type), accepted texts
    try:
        first = "R" if t == "ARM" else "X"
        ff = "S" if t == "ARM" else "F"
        g = const_values(hdr, ns, ["%s%d" % (first, i) for i in range(len(GP[t]))] + ["%s%d" % (ff, i) for i in range(len(FP[t]))])
    except Broken as e:
        c.undec(t + "/registers", str(e))
        return
    for i, n in enumerate(GP[t]):
        for ty in ("Int32", "Int64") if t == "RISCV" else ("Int32",):
            cases.append(("%s/reg/%s%d/%s" % (t, first, i, ty), ("reg", g["%s%d" % (first, i)], ot[ty]), n))
    for i, n in enumerate(FP[t]):
        cases.append(("%s/reg/%s%d" % (t, ff, i), ("reg", g["%s%d" % (ff, i)], ot["Float32"]), n))
    h = "#" if t == "ARM" else ""
    for v in (0, 1, -1, 7, 2047, -2048, 65535, 2**31 - 1, -2**31) + ((2**63 - 1, -2**63) if t == "RISCV" else ()):
        for ty in ("Int32", "Int64") if t == "RISCV" else ("Int32",):
            cases.append(("%s/imm/%d/%s" % (t, v, ty), ("imm", v, ot[ty]), (h + str(v),)))
    r = ("obj", "rel")
    hi, lo = {"RISCV": ("%pcrel_hi(@)", "%pcrel_lo(@)"), "MIPS": ("%hi(@)", "%lo(@)"), "ARM": ("#:upper16:@", "#:lower16:@")}[t]
    for ty, x in (("Special", "@"), ("HighBits", hi), ("LowBits", lo)):
        cases.append(("%s/reloc/%s" % (t, ty), ("reloc", Ptr(r), ot[ty]), (x,)))
    if t == "ARM":
        cf = enum_values(hdr, "CondField", ns)
        alias = {"HS": ("hs", "cs"), "LO": ("lo", "cc")}
        for k in CONDS:
            if k in cf:
                cases.append(("ARM/cond/" + k, ("imm", cf[k], ot["CondField"]), alias.get(k, (k.lower(),))))
        cases.append(("ARM/cond/AL", ("imm", cf["AL"], ot["CondField"]), ("", "al")))
        for v in (0, 1, 2, 3):
            cases.append(("ARM/loadstoreshift/%d" % v, ("imm", v, ot["LoadStoreShamt"]), (", lsl #%d" % v,) if v else ("", ", lsl #0")))
        isa_ops = mir.target_enum("ARM")
        for k in ("LSL", "LSR", "ASR"):
            cases.append(("ARM/shift/" + k, ("imm", isa_ops[k], ot["ShiftType"]), (k.lower(),)))
        for ty, nm in (("RegList", ["r%d" % i if i < 13 else ARMNAMES[i] for i in range(16)]), ("RegListVFP", ["s%d" % i for i in range(32)])):
            n = len(nm)
            for v in [1 << i for i in range(n)] + [0x4010, 0x8FF0 & ((1 << n) - 1), (1 << n) - 1]:
                cases.append(("ARM/%s/%x" % (ty, v), ("imm", v, ot[ty]), ("{" + ", ".join(nm[i] for i in range(n) if v >> i & 1) + "}",)))
        for b, tx in ((0x3F800000, 1.0), (0xC0200000, -2.5), (0x3E000000, 0.125), (0x41F80000, 31.0)):
            cases.append(("ARM/float/%x" % b, ("imm", b, ot["Float32"]), (("#", tx),)))
        k = const_values(hdr, ns, ["CC", "FCC"])
        cases.append(("ARM/reg/CC", ("reg", k["CC"], ot["Special"]), ("APSR_nzcv",)))
        cases.append(("ARM/reg/FCC", ("reg", k["FCC"], ot["Special"]), ("FPSCR",)))
    if t == "MIPS":
        try:
            k = const_values(hdr, ns, ["CC"])
            cases.append(("MIPS/reg/CC", ("reg", k["CC"], ot["Special"]), ("$fcc0",)))
        except Broken:
            pass
    bc = bitcode([source(t)])
    r = run_tool("spec", {"modules": bc, "root": "mir::%s::operator<<$" % t, "globals": ".",
                          "opaque": ["report(Fatal|Unreachable|NotImplemented)", "^std::(basic_)?ostream", "^std::__ostream", "^std::operator<<", "dumpVirtualReg", "dumpAsTarget"],
                          "queries": [{"id": "x"}], "cfg": True})
    fs = [x for x in r["results"] if x.get("blocks") and "OperandDumper" in x["root"]]
    if len(fs) != 1:
        c.undec(t + "/printer", "operand printer not found")
        return
    fn = fs[0]
    from absint import const_table
    gl = fn.get("globals") or {}
    table = const_table(gl)
    L = mir.Layout()
    n = 0
    for key, o, want in cases:
        n += 1
        out = []

        def call(m, nm, a, e):
            if nm == "indirect" or "dumpAsTarget" in nm:
                out.append("@")
                return 0
            if "operator<<" in nm or "_M_insert" in nm or "__ostream_insert" in nm:
                x = a[1] if len(a) > 1 else None
                if isinstance(x, str) and x.startswith('"'):
                    s = unesc(x[1:-1]) if "\\" in x else x[1:-1]
                    out.append(s[:a[2]] if len(a) > 2 and isinstance(a[2], int) and "string_view" not in e.get("sig", "") else s)
                elif len(a) > 2 and isinstance(a[2], str) and a[2].startswith('"') and isinstance(a[1], int):
                    out.append(a[2][1:-1][:a[1]])
                elif isinstance(x, Ptr) and x.off == 0 and str(x.base).startswith("@.str") and all(v in ("zero", 0) for _, _, v in gl.get(x.base, [])):
                    out.append("")
                elif isinstance(x, (int, float)):
                    sg = e.get("sig", nm)
                    out.append(chr(x & 255) if re.search(r"\(.*,\s*char\)", sg) else x if isinstance(x, float) else str(x))
                else:
                    out.append(("?", repr(a[1:])))
                return a[0]
            return None
        mem = L.operand(("obj", "op"), 0, *o)
        mem[("arg1", 0)] = (Ptr(("obj", "op")), 8)
        try:
            ts = Machine(fn, call, [], mem0=mem, table=table, visits=80).run()
        except Exception as ex:
            c.undec(key, repr(ex))
            continue
        if len(ts) != 1 or any(isinstance(x, tuple) for x in out):
            c.undec(key, "text not decided: %d paths %r" % (len(ts), out[:4]))
            continue
        if ts[0].end != "ret":
            c.bad(key, loc, "%s: the printer has no text for this operand" % key)
            continue
        if want and isinstance(want[0], tuple):
            ok = out[:1] == ["#"] and len(out) == 2 and isinstance(out[1], float) and out[1] == want[0][1]
            c.expect(ok, key, loc, "%s: prints %r, expected #%r" % (key, out, want[0][1]))
            continue
        txt = "".join(map(str, out)).replace("{ ", "{").replace(" }", "}")
        c.expect(txt in want, key, loc, "%s: prints '%s', the assembler's name is '%s'" % (key, txt, want[0]))
    c.cov.setdefault("operand_texts", {})[t] = n


def lookup(c, t):
    """every opcode is answered with its own description"""
    I = isa.insts(t)
    pre = "%s/lookup/" % t
    if t == "Generic":
        files, root = ["CodeGen/InstInfo.cpp"], "mir::TargetInstInfo::getInstInfo$"
        import isel
        g = const_values("cmmc/CodeGen/MIR.hpp", "cmmc::mir::", ["Inst" + n for n in I])
        ops = {n: g["Inst" + n] for n in I}
    else:
        files, root = [source(t)], "mir::%s::%sInstInfo::getInstInfo$" % (t, t)
        ops = mir.target_enum(t)
    r = run_tool("spec", {"modules": bitcode(files), "root": root, "opaque": OPAQUE, "queries": [{"id": "x"}], "cfg": True})["results"]
    fs = [x for x in r if x.get("blocks") and "(unsigned int)" in x["root"]]
    if len(fs) != 1:
        c.undec(pre + "function", "getInstInfo not found")
        return
    seen = {}
    order = list(I)
    for n in order:
        try:
            ts = [x for x in Machine(fs[0], lambda m, nm, a, e: 1 if "guard_acquire" in nm else None, [None, ops[n]], max_traces=8).run() if x.end == "ret"]
        except Exception as e:
            c.undec(pre + n, repr(e))
            continue
        rets = {x.ret for x in ts}
        if len(rets) != 1 or not isinstance(ts[0].ret, Ptr):
            if not ts:
                c.bad(pre + n, files[0], "no description is found for %s::%s" % (t, n))
            else:
                c.undec(pre + n, "description not decided: %r" % (list(rets)[:2],))
            continue
        seen[n] = ts[0].ret.off
    # the descriptions are members in the order of the table
    want = {o: n for o, n in zip(sorted({8 * (k + 1) for k in range(len(order))}), order)}
    for n, o in seen.items():
        c.expect(want.get(o) == n, pre + n, files[0], "%s::%s is answered with the description of %s" % (t, n, want.get(o, "something else")))


def branches(c, t):
    """redirectBranch puts the new block where the printed target is; matchBranch reads it and the probability from there"""
    I = isa.insts(t)
    ops = mir.target_enum(t)
    L = mir.Layout()
    f = source(t)
    r = run_tool("spec", {"modules": bitcode([f, "CodeGen/InstInfo.cpp"]), "root": "mir::%s::%sInstInfo::(redirectBranch|matchBranch)$" % (t, t),
                          "opaque": ["report(Fatal|Unreachable|NotImplemented)", "mir::TargetInstInfo::", "__dynamic_cast"], "queries": [{"id": "x"}], "cfg": True})["results"]
    fn = {x["name"].rsplit("::", 1)[1]: x for x in r if x.get("blocks")}
    flags = enum_values(FLAG_H, "InstFlag", "cmmc::mir::")
    for n, i in I.items():
        if "Branch" not in (i.get("Flag") or []):
            continue
        ks = [k for k, o in enumerate(i["operands"]) if o["class"] == "Reloc"]
        pk = [k for k, o in enumerate(i["operands"]) if o["class"] == "Prob"]
        operands = [("reloc", Ptr(("obj", "old"))) if k in ks else ("prob", 0.25) if k in pk else ("imm", 3) for k in range(len(i["operands"]))]
        fl = 0
        for x in i.get("Flag") or []:
            fl |= flags["InstFlag" + x]
        for what in ("redirectBranch", "matchBranch"):
            key = "%s/%s/%s" % (t, what, n)
            if what not in fn or len(ks) != 1:
                c.undec(key, "not found")
                continue

            def call(m, nm, a, e):
                if nm == "indirect":
                    return fl
                if "__dynamic_cast" in nm:
                    return a[0]
                return None
            args = [None, None, Ptr(("obj", "new"))] if what == "redirectBranch" else [None, None, Ptr(("obj", "outT")), Ptr(("obj", "outP"))]
            try:
                ts = [x for x in Machine(fn[what], call, args, mem0=L.inst("arg1", ops[n], operands)).run() if x.end not in ("unreachable",)]
            except Exception as e:
                c.undec(key, repr(e))
                continue
            if what == "matchBranch" and len(ts) > 1:
                # the other path is the one on which the target is not a basic block
                ts = [x for x in ts if (x.mem.get((("obj", "outT"), 0)) or (1,))[0] != 0]
            if len(ts) != 1:
                c.undec(key, "%d paths" % len(ts))
                continue
            x = ts[0]
            if x.end != "ret":
                c.bad(key, f, "%s does not handle %s::%s" % (what, t, n))
                continue
            if what == "redirectBranch":
                op, out = L.read_inst(x.mem, "arg1", len(operands))
                good = op == ops[n] and out[ks[0]] is not None and out[ks[0]][:2] == ("reloc", Ptr(("obj", "new"))) and \
                    all(o is not None and o[0] == operands[k][0] and (o[0] == "none" or o[1] == operands[k][1]) for k, o in enumerate(out) if k != ks[0])
                c.expect(good, key, f, "redirecting %s::%s leaves operands %r" % (t, n, [o and o[:2] for o in out]))
            else:
                tg = x.mem.get((("obj", "outT"), 0))
                pr = x.mem.get((("obj", "outP"), 0))
                c.expect(x.ret == 1 and tg and tg[0] == Ptr(("obj", "old")) and pr and pr[0] == (0.25 if pk else 1.0), key, f,
                         "matching %s::%s answers %r with target %r and probability %r" % (t, n, x.ret, tg and tg[0], pr and pr[0]))
