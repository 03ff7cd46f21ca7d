"""IR construction by the language front end (Frontend/EmitIR.cpp), interpreted abstractly: syntax trees are built by
their own constructors, sub-expressions are unknown values or further trees, and every instruction, block and branch
the front end creates is recorded."""
from vlib import *
import re
import irsel
import irtypes
import heap
import absint
from absint import Machine, Ptr, Stop, sym
from terms import Undecided, Trap, sgn, uns

LOC = "SourceLocation L{};"
H = '''
#include <cmmc/Frontend/AST.hpp>
#include <cmmc/Frontend/EmitIR.hpp>
#include <cmmc/IR/Type.hpp>
#include <cmmc/IR/ConstantValue.hpp>
#include <cmmc/IR/Instruction.hpp>
#include <cmmc/IR/Block.hpp>
#include <cstring>
#include <new>
using namespace cmmc;
using Q = QualifiedValue;
#define L SourceLocation{}
#define F(name, ...) extern "C" void vk_##name(Q* out, EmitContext* ctx, __VA_ARGS__)
F(binary, int op, Expr* a, Expr* b) { BinaryExpr e{L, (OperatorID)op, a, b}; new(out) Q(e.emit(*ctx)); }
F(compound, int op, Expr* a, Expr* b) { CompoundAssignExpr e{L, (OperatorID)op, a, b}; new(out) Q(e.emit(*ctx)); }
F(unary, int op, Expr* a) { UnaryExpr e{L, (OperatorID)op, a}; new(out) Q(e.emit(*ctx)); }
F(incdec, int op, Expr* a) { SelfIncDecExpr e{L, (OperatorID)op, a}; new(out) Q(e.emit(*ctx)); }
F(ifelse, Expr* c, Expr* a, Expr* b) { IfElseExpr e{L, c, a, b}; new(out) Q(e.emit(*ctx)); }
F(while, Expr* c, Expr* a) { WhileExpr e{L, c, a}; new(out) Q(e.emit(*ctx)); }
F(dowhile, Expr* a, Expr* c) { DoWhileExpr e{L, a, c}; new(out) Q(e.emit(*ctx)); }
F(for, Expr* i, Expr* c, Expr* n, Expr* a) { ForExpr e{L, i, c, n, a}; new(out) Q(e.emit(*ctx)); }
F(select, Expr* c, Expr* a, Expr* b) { SelectExpr e{L, c, a, b}; new(out) Q(e.emit(*ctx)); }
F(comma, Expr* a, Expr* b) { CommaExpr e{L, a, b}; new(out) Q(e.emit(*ctx)); }
F(switch, Expr* a, Expr* b) { SwitchExpr e{L, a, b}; new(out) Q(e.emit(*ctx)); }
F(case, Expr* a) { CaseExpr e{L, a}; new(out) Q(e.emit(*ctx)); }
F(break, int) { BreakExpr e{L}; new(out) Q(e.emit(*ctx)); }
F(continue, int) { ContinueExpr e{L}; new(out) Q(e.emit(*ctx)); }
F(empty, int) { EmptyExpr e{L}; new(out) Q(e.emit(*ctx)); }
F(return, Expr* a) { ReturnExpr e{L, a}; new(out) Q(e.emit(*ctx)); }
F(scope, Expr** a, int n) { StatementBlock b; for(int i = 0; i < n; ++i) b.push_back(a[i]); ScopedExpr e{L, std::move(b)}; new(out) Q(e.emit(*ctx)); }
F(cint, uint64_t v, int bits, bool s) { ConstantIntExpr e{L, v, (uint32_t)bits, s}; new(out) Q(e.emit(*ctx)); }
F(cast, Expr* a, const Type* t, bool s) { new(out) Q(ctx->getRValue(a, t, Qualifier{false, s}, ConversionUsage::Explcit), ValueQualifier::AsRValue, Qualifier{false, s}); }
F(castexpr, Expr* a, TypeRef* t) { CastExpr e{L, *t, a}; new(out) Q(e.emit(*ctx)); }
F(convert, Value* a, const Type* t, bool ss, bool ds, int u) { new(out) Q(ctx->convertTo(a, t, Qualifier{false, ss}, Qualifier{false, ds}, (ConversionUsage)u), ValueQualifier::AsRValue, Qualifier{false, ds}); }
F(value, Value* v, int lv, bool c, bool s) { new(out) Q(v, (ValueQualifier)lv, Qualifier{c, s}); }
extern "C" void vk_ctx(EmitContext* c, Module* m) { new(c) EmitContext(m); }
extern "C" Q vk_top(Q* out, EmitContext* c, Expr* e, Module* m) { vk_ctx(c, m); new(out) Q(e->emitWithLoc(*c)); return *out; }
extern "C" const Type* vk_ft(FunctionType* t) { return t->getRetType(); }
extern "C" Value* vk_qv(Q* q) { return q->value; }
extern "C" int vk_ql(Q* q) { return (int)q->valueQualifier; }
extern "C" int vk_qc(Q* q) { return q->qualifier.isConst; }
extern "C" int vk_qs(Q* q) { return q->qualifier.isSigned; }
extern "C" Q vk_qr(Q* q) { return *q; }
extern "C" void vk_info(FunctionCallInfo* i, bool p, bool c, bool s) { i->passingRetValByPointer = p; i->retQualifier = Qualifier{c, s}; }
extern "C" void vk_tref(TypeRef* t, bool c, bool s) { t->qualifier = Qualifier{c, s}; }
'''
OPQ = [x for x in heap.OPAQUE if "deque" not in x] + [
    r"IRBuilder::(makeOp|createPhi|createAlloc|addBlock|getTrue|getFalse|getZeroIndex|getIndexType|getCurrentBlock|setCurrentBlock|getCurrentFunction|setInsertPoint)",
    r"Expr::emitWithLoc", r"EmitContext::(pushLoc|popLoc|pushScope|popScope|lookupIdentifier|getFunctionCallInfo|getType|getModule|addConstant|addIdentifier|copyStruct)", "DiagnosticsContext", "reportSplError", "reportConversionErrorSpl",
    "reportWarning", "reportError", "reportNotImplemented", "reportUnreachable", "reportFatal", r"Block::setLabel", r"String::", "StringFlyWeight", r"PhiInst::addIncoming", r"SwitchInst::(addEdge|edges|defaultTarget)",
    r"IntrusiveList<cmmc::Instruction>::empty", r"Block::instructions", r"^std::(__cxx11::)?deque<", "cmmc::make<", r"ConstantInteger::(get|getTrue|getFalse)$", r"IntegerType::get(Boolean)?$", "FloatingPointType::get$",
    "PointerType::get$", "VoidType::get$", "InvalidType::get$", "isSame$", r"^std::unordered_map<", r"^std::(_Rb_tree|operator<<|basic_ostream|ostream)", "hasExactlyOneUse", "isUsed$"]


TY = ("i1", "i8", "i16", "i32", "i64", "f32", "f64")
W = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
TERM = ("Branch", "ConditionalBranch", "Switch", "Ret", "Unreachable")


class Front(irsel.Env):
    def __init__(self):
        bc = harness("front", H)
        if bc is None:
            raise Broken("interface of the syntax tree not recognised")
        super().__init__(["Frontend/EmitIR.cpp", "IR/ConstantValue.cpp", "IR/Type.cpp", "IR/Value.cpp"], "^vk_", ropaque=OPQ, raw=[bc])
        self.opid = enum_values("cmmc/Frontend/AST.hpp", "OperatorID", "cmmc::")
        ts = [t for t in Machine(self.funcs["vk_ft"], None, [Ptr("I")], funcs=self.funcs).run() if t.end == "ret"]
        o = {x[2] for t in ts for x in irtypes.leaves([t.ret]) if x[1] == "I" and x[3] == "ptr"}
        if len(o) != 1:
            raise Broken("layout of function types not recognised")
        self.ftret = o.pop()
        self.usage = enum_values("cmmc/Frontend/EmitIR.hpp", "ConversionUsage", "cmmc::")



    def pointer(self, mem, to):
        b = ("obj", "ty", "ptr", to.base[2])
        mem[(b, 0)] = (Ptr(self.vt("PointerType"), 16), 8)
        mem[(b, self.T.pointee[0])] = (to, 8)
        return Ptr(b)


class Build:
    """one syntax tree; nodes are tuples (kind, ...):
    ("leaf", name, type, signed, form)   an expression: form "r" value, "l" variable, ("c", v) constant
    ("stmt", name)                       a statement
    None                                 absent
    (kind, ...)                          a construct of the language: the arguments of vk_<kind>"""

    def __init__(self, env, strict=0, ret=("i32", True), native=None):
        self.E, self.strict, self.ret = env, strict, ret
        self.h = heap.Heap()
        self.asts = {}
        self.mem = dict(env.tmem)
        self.valof = {}
        self.ptrs = {t: env.pointer(self.mem, env.ty[t]) for t in TY}
        self.ctx = Ptr(("obj", "ctx"))
        f, t = ("obj", "func"), ("obj", "functype")
        self.mem[(f, env.L.type)] = (Ptr(t), 8)
        self.mem[(t, 0)] = (Ptr(env.vt("FunctionType"), 16), 8)
        self.mem[(t, env.ftret)] = (env.ty[ret[0]], 8)

    # ---- syntax trees
    def ast(self, d):
        if d is None:
            return 0
        if d not in self.asts:
            self.asts[d] = Ptr(("obj", "ast", len(self.asts)))
        return self.asts[d]

    def node(self, p):
        for d, q in self.asts.items():
            if q == p:
                return d
        raise Undecided("unknown syntax tree %r" % (p,))

    def args(self, m, d):
        """arguments of vk_<kind>"""
        E = self.E
        k = d[0]
        if k in ("binary", "compound", "unary", "incdec"):
            return [E.opid[d[1]]] + [self.ast(x) for x in d[2:]]
        if k == "scope":
            b = ("obj", "list", d)
            for i, x in enumerate(d[1:]):
                m.mem[(b, 8 * i)] = (self.ast(x), 8)
            return [Ptr(b), len(d) - 1]
        if k in ("break", "continue", "empty"):
            return [0]
        if k == "cint":
            return [d[1], d[2], int(d[3])]
        if k == "cast":
            return [self.ast(d[1]), E.ty[d[2]], int(d[3])]
        if k == "castexpr":
            b = Ptr(("obj", "tref", d[2], d[3]))
            m.enter(E.funcs["vk_tref"], [b, 0, int(d[3])])
            return [self.ast(d[1]), b]
        return [self.ast(x) for x in d[1:]]

    def emit(self, m, d):
        """emits a syntax tree, -> the memory of its QualifiedValue"""
        E = self.E
        n = self.cell(m, "nq", 0)
        self.setcell(m, "nq", n + 1)
        out = Ptr(("obj", "q", n))
        if d[0] == "leaf":
            v, lv, s = self.leaf(m, d)
            m.enter(E.funcs["vk_value"], [out, self.ctx, v, lv, int(d[4] == "lconst"), s])
        elif d[0] == "stmt":
            self.rec(m, ("stmt", d[1]))
            m.enter(E.funcs["vk_value"], [out, self.ctx, 0, 0, 0, 0])
        else:
            m.enter(E.funcs["vk_" + d[0]], [out, self.ctx] + self.args(m, d))
        return out

    def leaf(self, m, d):
        _, name, ty, signed, form = d
        E = self.E
        if isinstance(form, tuple):
            return self.const(m, ty, form[1]), 0, int(signed)
        self.rec(m, ("eval", name))
        b = ("obj", "leaf", name)
        if form.startswith("l"):
            m.mem[(b, 0)] = (Ptr(E.vt("StackAllocInst"), 16), 8)
            m.mem[(b, E.L.type)] = (self.ptrs[ty], 8)
            return Ptr(b), 1, int(signed)
        m.mem.update(E.L.inst(b, E.ids["Call"], E.ty[ty], []))
        m.mem[(b, 0)] = (Ptr(E.vt("FunctionCallInst"), 16), 8)
        return Ptr(b), 0, int(signed)

    # ---- objects
    def cell(self, m, k, d):
        return m.mem.get((("ctx", k), 0), (d, 8))[0]

    def setcell(self, m, k, v):
        m.mem[(("ctx", k), 0)] = (v, 8)

    def fresh(self, m, kind):
        i = self.cell(m, kind, 0)
        self.setcell(m, kind, i + 1)
        return ("obj", kind, i)

    def const(self, m, ty, v):
        E = self.E
        b = self.fresh(m, "const")
        m.mem[(b, E.L.type)] = (E.ty[ty], 8)
        if ty[0] == "f":
            m.mem[(b, 0)] = (Ptr(E.vt("ConstantFloatingPoint"), 16), 8)
            m.mem[(b, E.off["fp"])] = (float(v), 8)
        else:
            m.mem[(b, 0)] = (Ptr(E.vt("ConstantInteger"), 16), 8)
            v = (v & 1) if ty == "i1" else v
            m.mem[(b, E.off["int"])] = (v, 8)
        m.mem[(("ctx", "const", b), 0)] = ((ty, v), 8)
        return Ptr(b)

    def tyname(self, p):
        t = irsel.tname(p)
        if t is None:
            raise Undecided("type %r" % (p,))
        return t

    def typeof(self, m, v):
        return m.load(Ptr(v.base, v.off + self.E.L.type), 8, "ptr") if isinstance(v, Ptr) else None

    def pointee(self, m, v):
        t = self.typeof(m, v)
        for n, p in self.ptrs.items():
            if p == t:
                return n
        raise Undecided("pointer type of %r" % (v,))

    def rec(self, m, x):
        m.events.append(("IR", self.cell(m, "cur", ("obj", "block", "entry")), x))

    def inst(self, m, op, ty, ops, cls, cmp=None, extra=None):
        E = self.E
        if any(not isinstance(o, Ptr) for o in ops):
            raise Undecided("operand of a new instruction")
        b = self.fresh(m, "inst")
        t = E.ty[ty] if isinstance(ty, str) else ty
        for k, v in E.L.inst(b, op if isinstance(op, int) else E.ids[op], t, ops).items():
            m.mem[k] = v
        m.mem[(b, 0)] = (Ptr(E.vt(cls), 16), 8)
        if cmp is not None:
            m.mem[(b, E.L.cmp)] = (cmp, 4)
        name = E.idname.get(op) if isinstance(op, int) else op
        self.rec(m, ("inst", b, name, t.base[2:] if isinstance(t, Ptr) else None, tuple(ops), E.cmpname.get(cmp), extra))
        return Ptr(b)

    def makeop(self, m, name, args):
        E = self.E
        targs = irsel.split_args(name[name.index("makeOp<") + 7:-1])
        cls, vals = targs[0].split("::")[-1], []
        for a, t in zip(args[1:], targs[1:]):
            if "std::vector" in t:
                vals.append(None)
                continue
            small = re.search(r"InstructionID|CompareOp", t)
            v = m.load(m.addr(a), 4 if small else 8, "i32" if small else "double" if "double" in t else "ptr")
            if small:
                if not isinstance(v, int):
                    raise Undecided("operation of a new instruction")
            elif sym(v) and not isinstance(v, Ptr):
                raise Undecided("operand of a new instruction %r" % (v,))
            vals.append(v)
        ty = lambda v: self.typeof(m, v)
        n = len(vals)
        if cls in ("BinaryInst", "UnaryInst") and n == (3 if cls == "BinaryInst" else 2):
            return self.inst(m, vals[0], ty(vals[1]), vals[1:], cls)
        if cls == "CompareInst" and n == 4:
            return self.inst(m, vals[0], "i1", vals[2:], cls, vals[1])
        if cls == "CastInst" and n == 3:
            return self.inst(m, vals[0], vals[1], vals[2:], cls)
        if cls == "LoadInst" and n == 1:
            return self.inst(m, "Load", self.pointee(m, vals[0]), vals, cls)
        if cls == "StoreInst" and n == 2:
            return self.inst(m, "Store", "void", vals, cls)
        if cls == "BranchInst" and n == 1:
            return self.inst(m, "Branch", "void", [], cls, extra=(vals[0],))
        if cls == "BranchInst" and n == 4:
            return self.inst(m, "ConditionalBranch", "void", vals[:1], cls, extra=(vals[2], vals[3]))
        if cls == "SwitchInst" and n == 2:
            p = self.inst(m, "Switch", "void", vals[:1], cls)
            m.mem[(("ctx", "default", p.base), 0)] = (vals[1], 8)
            self.setcell(m, ("edges", p.base), ())
            m.mem[(("obj", "edges", p.base), E.T.size if False else 0)] = (0, 8)
            self.h.setmap(m, Ptr(("obj", "edges", p.base)), "map", ())
            return p
        if cls == "ReturnInst":
            return self.inst(m, "Ret", "void", vals, cls)
        if cls == "UnreachableInst":
            return self.inst(m, "Unreachable", "void", [], cls)
        if cls == "SelectInst" and n == 3:
            return self.inst(m, "Select", ty(vals[1]), vals, cls)
        raise Undecided("new " + cls)

    # ---- model of the opaque calls
    def call(self, m, n, a, e):
        E = self.E
        s = n.rsplit("::", 1)[-1]
        if "IRBuilder::makeOp<" in n:
            return self.makeop(m, n, a)
        if n.endswith("IRBuilder::createPhi"):
            return self.inst(m, "Phi", a[1], [], "PhiInst")
        if n.endswith("PhiInst::addIncoming"):
            k = ("phi", a[0].base)
            self.setcell(m, k, self.cell(m, k, ()) + ((a[1].base, a[2]),))
            return 0
        if n.endswith("IRBuilder::addBlock"):
            return Ptr(self.fresh(m, "block"))
        if n.endswith("IRBuilder::setCurrentBlock"):
            if not isinstance(a[1], Ptr):
                raise Undecided("block")
            self.setcell(m, "cur", a[1].base)
            return 0
        if n.endswith("IRBuilder::getCurrentBlock"):
            return Ptr(self.cell(m, "cur", ("obj", "block", "entry")))
        if n.endswith("IRBuilder::getCurrentFunction"):
            return Ptr(("obj", "func"))
        if n.endswith(("IRBuilder::getTrue", "ConstantInteger::getTrue")):
            return self.const(m, "i1", 1)
        if n.endswith(("IRBuilder::getFalse", "ConstantInteger::getFalse")):
            return self.const(m, "i1", 0)
        if n.endswith(("IRBuilder::getZeroIndex",)):
            return self.const(m, "i64", 0)
        if n.endswith("IRBuilder::getIndexType"):
            return E.ty["i64"]
        if n.endswith("IRBuilder::IRBuilder"):
            return 0
        if n.endswith("Expr::emitWithLoc") or (n == "indirect" and len(a) >= 2 and isinstance(a[-2], Ptr) and a[-2].base[:2] == ("obj", "ast")):
            p = a[-2]
            out = self.emit(m, self.node(p))
            if len(a) == 3:
                q = m.addr(a[0])
                m.memop("llvm.memcpy", [q, out, 16])
                return 0
            return m.enter(E.funcs["vk_qr"], [out])
        if n.endswith("EmitContext::getFunctionCallInfo"):
            b = Ptr(("obj", "info"))
            if (b.base, 0) not in m.mem:
                m.enter(E.funcs["vk_info"], [b, 0, 0, int(self.ret[1])])
            return b
        if n.endswith("EmitContext::getType"):
            d = [x for x in self.asts if x[0] == "castexpr"]
            return E.ty[d[0][2]]
        if re.search(r"EmitContext::(pushLoc|popLoc|pushScope|popScope|addConstant|addIdentifier)$", n):
            if s in ("pushScope", "popScope"):
                self.rec(m, ("scope", s))
            return 0
        if re.search(r"reportFatal|reportUnreachable|reportSplError|reportConversionErrorSpl|reportNotImplemented", n):
            raise Stop("reject")
        if n.endswith("ConstantInteger::get"):
            if not isinstance(a[1], int):
                raise Undecided("value of a constant")
            return self.const(m, self.tyname(a[0]), a[1])
        if n.startswith("cmmc::make<cmmc::ConstantFloatingPoint"):
            v = m.load(m.addr(a[1]), 8, "double")
            if not isinstance(v, (int, float)):
                raise Undecided("value of a constant")
            return self.const(m, self.tyname(m.load(m.addr(a[0]), 8, "ptr")), v)
        if n.startswith("cmmc::make<cmmc::UndefinedValue"):
            b = self.fresh(m, "undef")
            m.mem[(b, 0)] = (Ptr(E.vt("UndefinedValue"), 16), 8)
            m.mem[(b, E.L.type)] = (m.load(m.addr(a[0]), 8, "ptr"), 8)
            return Ptr(b)
        if n.endswith("IntegerType::getBoolean"):
            return E.ty["i1"]
        if n.endswith("IntegerType::get"):
            if not isinstance(a[0], int):
                raise Undecided("integer type")
            return E.ty["i%d" % a[0]]
        if n.endswith("FloatingPointType::get"):
            return E.ty["f32" if a[0] else "f64"]
        if n.endswith("VoidType::get"):
            return E.ty["void"]
        if n.endswith("PointerType::get"):
            return self.ptrs.get(irsel.tname(a[0])) or Ptr(("obj", "ty", "ptr"))
        if n.endswith("InvalidType::get"):
            return Ptr(("obj", "ty", "invalid"))
        if n.endswith("isSame"):
            return int(a[0] == a[1])
        if n.endswith("SwitchInst::addEdge"):
            k = ("edges", a[0].base)
            l = self.cell(m, k, ()) + ((a[1], a[2]),)
            self.setcell(m, k, l)
            self.h.setmap(m, Ptr(("obj", "edges", a[0].base)), "map", tuple(sorted(l)))
            return 0
        if n.endswith("SwitchInst::edges"):
            return Ptr(("obj", "edges", a[0].base))
        if n.endswith("SwitchInst::defaultTarget"):
            return Ptr(("ctx", "default", a[0].base))
        if n.endswith("Block::instructions"):
            return Ptr(("insts", a[0].base))
        if n.endswith("IntrusiveList<cmmc::Instruction>::empty"):
            b = a[0].base[1]
            return int(not any(x[0] == "IR" and x[1] == b for x in m.events))
        if n.startswith("std::deque<"):
            r = self.deque(m, n, a)
            if r is not None:
                return r
        if s.startswith("_Rb_tree_const_iterator") and len(a) == 2:
            m.memop("llvm.memcpy", [m.addr(a[0]), m.addr(a[1]), 8])
            return 0
        if n.startswith("std::unordered_map<"):
            if s.startswith(("find", "end", "cend", "begin", "cbegin", "unordered_map", "~")):
                return 0
        if "String::" in n or "StringFlyWeight" in n or n.endswith("Block::setLabel"):
            return Ptr(("obj", "string")) if e.get("ty") == "ptr" else ("u", n) if e.get("ty") not in (None, "void") else 0
        if "DiagnosticsContext" in n or n.startswith(("cmmc::report", "std::operator<<", "std::ostream", "cmmc::Attachment")):
            return Ptr(("obj", "diag"))
        if n.endswith("Module::getTarget") or n.endswith("getModule"):
            return Ptr(("obj", "target"))
        if n == "indirect" and len(a) >= 1:
            return None
        return self.h.call(m, n, a, e)

    def deque(self, m, n, a):
        """stacks of targets: elements of known size, addressed by node"""
        x = re.match(r"std::deque<(std::pair<cmmc::Block\*, cmmc::Block\*>|cmmc::SwitchInst\*)", n)
        if not x:
            return None
        w = 16 if "pair" in x.group(1) else 8
        meth = heap.short(n)[1]
        meth = re.sub("<.*", "", meth)
        p = m.addr(a[0])
        k = ("stack", p.base, p.off)
        l = self.cell(m, k, ())
        if meth in ("deque", "~deque"):
            return 0
        if meth in ("push_back", "emplace_back"):
            b = self.fresh(m, "elem")
            if len(a) == 2:
                m.memop("llvm.memcpy", [Ptr(b), m.addr(a[1]), w])
            else:
                for i, y in enumerate(a[1:]):
                    m.mem[(b, 8 * i)] = (m.load(m.addr(y), 8, "ptr"), 8)
            self.setcell(m, k, l + (b,))
            return Ptr(b)
        if meth in ("pop_back", "pop_front"):
            if not l:
                raise Stop("host")
            self.setcell(m, k, l[:-1] if meth == "pop_back" else l[1:])
            return 0
        if meth in ("back", "front"):
            if not l:
                raise Stop("host")
            return Ptr(l[-1] if meth == "back" else l[0])
        if meth == "empty":
            return int(not l)
        if meth == "size":
            return len(l)
        if meth == "operator[]" and isinstance(a[1], int) and 0 <= a[1] < len(l):
            return Ptr(l[a[1]])
        return None

    def load(self, m, p, size, ty):
        if isinstance(p.base, str):
            if "guard" in p.base or "_ZGV" in p.base:
                return 0
            if "strictMode" in p.base:
                return self.strict if size == 1 else None
        return None

    def run(self, d, **kw):
        """-> list of (end, Trace-like) for a syntax tree"""
        E = self.E
        kw.setdefault("visits", 60)
        kw.setdefault("max_steps", 200000)
        kw.setdefault("max_traces", 64)
        top = self.ast(d)
        out = Ptr(("obj", "out"))
        m = Machine(E.funcs["vk_top"], self.call, [out, self.ctx, top, Ptr(("obj", "module"))], mem0=self.mem, funcs=E.funcs, table=E.table, keep=lambda k: True, load=self.load, **kw)
        ts = m.run()
        if m.truncated or not ts:
            raise Undecided("interpretation cut off")
        return ts


