"""Legalisation of machine instructions: preRALegalizeInst, postLegalizeInst, legalizeInstWithStackOperand,
postLegalizeInstSeq and adjustReg of a target, interpreted abstractly from their residual control flow on one
instruction at a time; what they leave in the instruction list must have the effect of what they were given."""
import itertools
import multiprocessing
from vlib import *
from absint import Machine, Ptr, Stop, Undecided, sym, const_table
import isel, mach
from isel import Op, Inst, Plan, Bad, Unknown, Undef, GENERIC, BITS

OPAQUE = isel.OPAQUE + [r"^std::(__cxx11::)?list<.*>::", r"^cmmc::mir::MIRBasicBlock::", "makeUnique", "^cmmc::String::", "MIRRelocable::symbol", "reportLegalizationFailure"]
LIST, FUNC = ("obj", "list"), ("obj", "func")
GARBAGE = 0x5A5A5A5

PROBE = '''
#include <cmmc/CodeGen/ISelInfo.hpp>
#include <cmmc/CodeGen/MIR.hpp>
using namespace cmmc; using namespace cmmc::mir;
extern "C" {
void* vk_inst(InstLegalizeContext& c) { return &c.inst; }
void* vk_list(InstLegalizeContext& c) { return &c.instructions; }
void* vk_iter(InstLegalizeContext& c) { return c.iter._M_node; }
void* vk_ctx(InstLegalizeContext& c) { return &c.ctx; }
void* vk_block(InstLegalizeContext& c) { return (*c.blockIter)._M_node; }
bool vk_has(InstLegalizeContext& c) { return c.blockIter.has_value(); }
void* vk_func(InstLegalizeContext& c) { return &c.func; }
int vk_off(StackObject& o) { return o.offset; }
}
'''


class Record:
    """what one target has to report"""

    def __init__(self, tier):
        self.tier, self.cov, self.units, self.log = tier, {}, set(), []

    def ok(self, what=None):
        self.log.append(("ok", what))

    def undec(self, key, why):
        self.log.append(("undec", key, why))

    def bad(self, key, where, msg):
        self.log.append(("bad", key, where, msg))

    def expect(self, cond, key, where, msg, sample=None):
        self.log.append(("expect", bool(cond), key, where, msg, sample))


def targets(c, one):
    """one process per target; one((target, tier)) -> Record"""
    gen_headers()
    build_tool()
    with multiprocessing.get_context("fork").Pool(3) as pool:
        for r in pool.map(one, [(t, c.tier) for t in ("ARM", "RISCV", "MIPS")], 1):
            for x in r.log:
                getattr(c, x[0])(*x[1:])
            c.units.update(r.units)
            for k, v in r.cov.items():
                c.cov[k] = c.cov.get(k, 0) + v


def layout():
    bc = harness("legal-layout", PROBE)
    if bc is None:
        raise Broken("the context of the legalisation functions has changed its form")
    out = {}
    r = run_tool("spec", {"modules": [bc], "root": "^vk_[a-z]+$", "opaque": [], "queries": [{"id": "x"}], "cfg": True, "globals": "."})
    for f in r["results"]:
        seen = []

        def load(m, p, size, ty):
            seen.append(p.off)
            return 1
        Machine(f, lambda *a: None, [Ptr(("obj", "arg"))], load=load).run()
        out[f["name"]] = seen[-1]
    return out


class Legaliser:
    """runs one function of a target"""

    def __init__(self, T, files):
        self.T = T
        r = run_tool("spec", {"modules": bitcode(files), "root": r"ISelInfo::(preRALegalizeInst|postLegalizeInst|legalizeInstWithStackOperand|postLegalizeInstSeq)$|::adjustReg$",
                              "opaque": OPAQUE, "queries": [{"id": "x"}], "cfg": True, "globals": "."})
        self.table, self.fn = {}, {}
        for x in r["results"]:
            self.table.update(const_table(x["globals"]))
            n = x["name"][x["name"].rfind("::") + 2:]
            if self.fn.get(n) is None or T.name in x["name"]:
                self.fn[n] = x
        self.off = layout()

    def node(self, k):
        return ("obj", "node", k)

    def shifted(self, base, inst):
        return {(base, o + 16): v for (b, o), v in self.T.cells(base, inst).items()}

    def read(self, mem, base):
        return self.T.readinst({(base, o - 16): v for (b, o), v in mem.items() if b == base and o >= 16}, base)

    def run(self, name, insts, at, extra):
        """insts: the instruction list; at: index of the instruction legalised; extra: function of (mem, context pointer, instruction pointer) -> arguments
        -> list of (end, blocks) with blocks: [(label, [Inst])]"""
        T, L = self.T, self.T.L
        mem = {}
        nodes = [self.node(k) for k in range(len(insts))]
        ring = [LIST] + nodes
        for a, b in zip(ring, ring[1:] + ring[:1]):
            mem[(a, 0)] = (Ptr(b), 8)
            mem[(b, 8)] = (Ptr(a), 8)
        for b, i in zip(nodes, insts):
            mem.update(self.shifted(b, i))
        B0, FEND = ("obj", "bnode", 0), ("obj", "bnode", "end")
        for a, b in ((B0, FEND), (FEND, B0)):
            mem[(a, 0)] = (Ptr(b), 8)
            mem[(b, 8)] = (Ptr(a), 8)
        mem[(B0, 16)] = (Ptr(("obj", "block", 0)), 8)
        C, o = ("obj", "lctx"), self.off
        cur = Ptr(nodes[at], 16)
        for k, v in (("inst", cur), ("list", Ptr(LIST)), ("iter", Ptr(nodes[at])), ("ctx", Ptr(("obj", "ctx"))), ("block", Ptr(B0)), ("func", Ptr(FUNC))):
            mem[(C, o["vk_" + k])] = (v, 8)
        mem[(C, o["vk_has"])] = (1, 1)
        args = extra(mem, Ptr(C), cur)

        def nxt(m, p, off=0):
            x = m.mem.get((p.base, p.off + off))
            if x is None or not isinstance(x[0], Ptr):
                raise Undecided("list node %r unknown" % (p,))
            return x[0]

        def link(m, a, b):
            m.mem[(a.base, a.off)] = (b, 8)
            m.mem[(b.base, b.off + 8)] = (a, 8)

        def insert(m, pos, src, unique):
            m.count += 1
            if unique:
                n = Ptr(("obj", "bnode", m.count))
                m.mem[(n.base, 16)] = m.mem.get((src.base, src.off))
                m.mem[(src.base, src.off)] = (0, 8)
            else:
                n = Ptr(self.node("new%d" % m.count))
                end = L.base + 7 * L.stride
                for (b, k), v in list(m.mem.items()):
                    if b == src.base and src.off <= k < src.off + end:
                        m.mem[(n.base, k - src.off + 16)] = v
            prev = nxt(m, pos, 8)
            link(m, prev, n)
            link(m, n, pos)
            return n

        def call(m, n, a, e):
            q = n.split("(")[0].split("[abi:")[0]
            s = q[q.rfind("::") + 2:] if "::" in q else q
            if "list<" in q:
                unique = "unique_ptr" in q
                a = [m.addr(x) for x in a]
                if s in ("insert", "emplace"):
                    return insert(m, a[1], a[2], unique)
                if s in ("push_back", "emplace_back"):
                    insert(m, a[0], a[1], unique)
                    return ("void",)
                if s in ("push_front", "emplace_front"):
                    insert(m, nxt(m, a[0]), a[1], unique)
                    return ("void",)
                if s in ("end", "cend"):
                    return a[0]
                if s in ("begin", "cbegin"):
                    return nxt(m, a[0])
                if s == "erase" and len(a) == 2:
                    p, x = nxt(m, a[1], 8), nxt(m, a[1])
                    link(m, p, x)
                    return x
                if s == "splice" and len(a) == 5:
                    pos, other, first, last = a[1:]
                    if first != last:
                        tail, before = nxt(m, last, 8), nxt(m, first, 8)
                        link(m, before, last)
                        prev = nxt(m, pos, 8)
                        link(m, prev, first)
                        link(m, tail, pos)
                    return ("void",)
                raise Undecided("list operation %s/%d" % (s, len(a)))
            if "makeUnique" in q:
                m.nblk += 1
                p = m.addr(a[0])
                b = ("obj", "block", m.nblk)
                m.mem[(p.base, p.off)] = (Ptr(b), 8)
                l = Ptr(("obj", "blist", m.nblk))
                link(m, l, l)
                return ("void",)
            if s == "instructions":
                b = m.addr(a[0]).base
                if b[:2] != ("obj", "block"):
                    raise Undecided("instructions of %r" % (b,))
                return Ptr(LIST) if b[2] == 0 else Ptr(("obj", "blist", b[2]))
            if s == "nextId":
                m.ids += 1
                return m.ids
            if s in ("symbol", "withID") or q.startswith("cmmc::String"):
                return ("string",)
            if s == "indirect":
                x = a[-1]
                if len(a) >= 3 and isinstance(x, int):
                    return Ptr(("obj", "info", x))
                x = m.addr(x)
                if isinstance(x.base, tuple) and x.base[:2] == ("obj", "info"):
                    return T.flags(x.base[2])
                op = m.mem.get((x.base, x.off + L.opcode[0]))
                if op and not sym(op[0]):
                    return Ptr(("obj", "info", op[0]))
                raise Undecided("virtual call not recognised")
            if s.startswith(("__cxa_throw", "reportUnreachable", "reportLegal", "reportNot", "__throw")) or e.get("noreturn"):
                raise Stop("noreturn")
            return None

        class M(Machine):
            def trace(self):
                self.count, self.nblk, self.ids = 0, 0, 5000
                return super().trace()
        f = self.fn.get(name)
        if f is None:
            raise Undecided("%s not found" % name)
        m = M(f, call, args, mem0=mem, table=self.table, visits=80, max_traces=60, max_steps=20000, keep=lambda k: True)
        out = []
        for t in m.run():
            if t.end != "ret":
                out.append((t.end, None))
                continue
            blocks = []
            b = Ptr(B0)
            while b.base != FEND:
                k = t.mem[(b.base, 16)][0].base[2]
                head = Ptr(LIST) if k == 0 else Ptr(("obj", "blist", k))
                seq, n = [], t.mem[(head.base, 0)][0]
                while n != head:
                    seq.append(self.read(t.mem, n.base))
                    n = t.mem[(n.base, 0)][0]
                    if len(seq) > 50:
                        raise Undecided("list does not end")
                blocks.append((k, seq))
                b = t.mem[(b.base, 0)][0]
            out.append((t.end, blocks))
        if m.truncated:
            raise Undecided("interpretation cut off")
        return out


STOP = Inst("Unreachable", [])


def execute(M, blocks, env, mem):
    """runs the blocks in order until the marker that followed the instruction; -> None or a text"""
    names = [k for k, _ in blocks]
    code = dict(blocks)
    b, i, steps = names[0], 0, 0
    while True:
        steps += 1
        if steps > 200:
            return "does not come to an end"
        if i >= len(code[b]):
            k = names.index(b) + 1
            if k >= len(names):
                return "runs off the end of the function"
            b, i = names[k], 0
            continue
        x = code[b][i]
        if x.name == "Unreachable":
            return None
        if x.name == "Spoil":
            env[x.ops[0].v] = GARBAGE
            i += 1
            continue
        r = M.step(x, env, mem)
        i += 1
        if r and r[0] == "branch" and r[1]:
            if r[2] not in code:
                return "jumps to %r" % (r[2],)
            b, i = r[2], 0
        elif r and r[0] != "branch":
            return "ends with %s" % (r,)


def repr_address(stores):
    return [x[0] for x in stores]


class Judge:
    def __init__(self, c, T, M, G, scratch=()):
        self.c, self.T, self.M, self.G, self.scratch = c, T, M, G, set(scratch)
        self.done = self.refused = 0

    def check(self, plan, blocks, meaning, late=False):
        """-> None or a text; meaning: [(env before, expected env changes {reg: (value, type)}, stores, truth)]"""
        for _, seq in blocks:
            for x in seq:
                if x.name in GENERIC and late and x.name != "Unreachable":
                    return "leaves the generic %s" % x
        for env, want, stores, truth in meaning:
            e, mem = dict(env), mach.Memory(truth=truth, bits=self.M.wide)
            try:
                t = execute(self.M, blocks, e, mem)
            except Undef:
                t = "is undefined"
            except Bad as x:
                t = "is not encodable: %s" % x
            except Unknown as x:
                if "before it is defined" in str(x) or "before they are set" in str(x):
                    t = str(x)
                else:
                    raise
            if t:
                return "%s for %s" % (t, isel.show_env(self.ints(env)))
            if isinstance(stores, int):
                # one value written at this address, nothing else
                if len(mem.stores) != 1 or stores not in repr_address(mem.stores):
                    return "stores %s instead of one value at %#x" % (mem.stores, stores)
            elif mem.stores != stores:
                return "stores %s instead of %s for %s" % (mem.stores, stores, isel.show_env(self.ints(env)))
            for r, (v, ty) in want.items():
                if not self.M.same(e.get(r), v, ty):
                    return "leaves %s instead of %s in the result for %s" % (e.get(r), v, isel.show_env(self.ints(env)))
            for r, v in env.items():
                if r not in want and r not in self.scratch and e.get(r) != v:
                    return "changes another register, %%%s, for %s" % (r & 0xfffffff, isel.show_env(self.ints(env)))
        return None

    def ints(self, env):
        return {k: v for k, v in env.items() if isinstance(v, int)}

    def meaning(self, plan):
        di = self.T.defidx(plan.root.name)
        d = plan.root.ops[di] if di is not None else None
        out = []
        for env0, env, truth, ctl, stores, want in self.M.meaning(plan):
            if ctl:
                raise Unknown("control flow")
            e = dict(env)
            if d is not None and d.v not in e:
                e[d.v] = GARBAGE
            out.append((e, {d.v: (want, d.t)} if d is not None else {}, stores, truth))
        return out

    def group(self, what, name, items, must=True, where=None):
        """items: (text, blocks function, meaning); one obligation"""
        c = self.c
        c.cov["instances"] = c.cov.get("instances", 0)
        n = refused = 0
        und = bad = None
        last = what == "post"
        for text, go, mean in items:
            try:
                ms = mean()
                if not ms:
                    continue
                n += 1
                for end, blocks in go():
                    if blocks is None:
                        refused += 1
                        continue
                    t = self.check(None, blocks, ms, what in ("post", "stack"))
                    if t:
                        bad = "%s becomes %s, which %s" % (text, "; ".join("%s%s" % ("" if k == 0 else "b%s: " % k, ", ".join(map(repr, q))) for k, q in blocks), t)
                        break
            except (Undecided, Unknown) as x:
                und = und or "%s (%s)" % (x, text)
            if bad:
                break
        c.cov["instances"] += n
        key = "%s/%s/%s" % (self.T.name, what, name)
        where = where or "cmmc/Target/%s/%sISelInfo.cpp" % (self.T.name, self.T.name)
        if bad:
            c.bad(key, where, bad)
        elif und:
            c.undec(key, und)
        elif must and n and refused == n:
            c.bad(key, where, "%s is never accepted, although it is an instruction this step has to handle (%d instances)" % (name, n))
        elif n:
            c.ok({"step": what, "instruction": name, "target": self.T.name, "instances": n, "refused": refused})
        else:
            c.undec(key, "no instance with a meaning")


OFFSETS = [0, 1, 2, 4, 8, 16, 100, 255, 256, 257, 1020, 1024, 2040, 2047, 2048, 4088, 4092, 4095, 4096, 4100, 32760, 32767, 32768, 65535, 65536, 65540, 100000, 1 << 20]
DISP = [0, 4, -4, 8, 252, -252, 1020, 2044, 4000]


def pre(J, P, special):
    """instructions marked LegalizePreRA"""
    T, M, G = J.T, J.M, J.G
    E = isel.Instances(T, P.zero)
    for name in sorted(n for n, x in T.info.items() if "LegalizePreRA" in (x.get("Flag") or []) and n in T.num):
        P.special = dict(special)
        P.special.update(special.get(name, {}))
        items = []
        for sig in P.target_sigs(name):
            sh = (name, isel.freeze(sig), ())
            for plan in itertools.chain(E.all(sh, 400 if P.deep else 120), sweep(E, sh)):
                r = plan.root

                def go(r=r):
                    return G.run("preRALegalizeInst", [r, STOP], 0, lambda mem, C, cur: [None, C])

                def mean(plan=plan, r=r):
                    ms = J.meaning(plan)
                    if name.startswith(("PseudoSMax", "PseudoSMin")):
                        ms = [x for x in (flagged(J, r, y) for y in ms) if x]
                    return ms
                items.append((repr(r), go, mean))
        if not items:
            J.c.undec("%s/pre/%s" % (T.name, name), "no operands of this form are known")
            continue
        J.group("pre", name, items)


SWEEP = sorted({s * v for s in (1, -1) for v in {1 << k for k in range(0, 63)} | {(1 << k) - 1 for k in range(1, 63)} | {
    0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0x17ff, 0x1800, 0x12345678, 0x12345800, 0x123457ff, 0x12345fff, 0x7ffff7ff, 0x7ffff800, 0x7fffffff, 0x80000000, 0x800007ff, 0x80000800, 0x80000fff, 0xfffff7ff, 0xfffff800,
    0xffffffff, 0x100000000, 0x1000007ff, 0x100000800, 0x7ff000007ff, 0x7ff00000800, 0x800000007ff, 0x7ff00000000, 0x123456789abcdef, 0xff00, 0x3fc, 0x104, 0xff000000, 0xf000000f, 0xffff0000, 0x10001, 1000003}} | {-2**63, 0})


def sweep(E, sh):
    """every immediate in turn over many values, the others fixed"""
    leaves = list(isel.shape_leaves(sh))
    imm = [(p, o[1]) for p, o in leaves if o[0] == "i"]
    for q, t in imm:
        regs, vals, n = {}, {}, 0
        for p, o in leaves:
            if o[0] == "r":
                n += 1
                regs[p] = Op("reg", E.T.vreg + n, o[1])
            elif o[0] == "i":
                vals[p] = Op("imm", 1, o[1])
            elif o[0] == "one":
                vals[p] = o[1][0]
            elif o[0] == "cc":
                vals[p] = Op("imm", E.T.cmp["FCmpOrderedLessThan" if o[1] == "f" else "ICmpSignedLessThan"], "Special")
            else:
                vals[p] = o[1]
        for v in SWEEP:
            if isel.fits(v, t):
                yield E.build(sh, vals | {q: Op("imm", v, t)}, regs)


def flagged(J, r, m):
    """the flags a maximum or minimum reads are those of the comparison of its operands"""
    import isa
    M = J.M
    env, want, stores, truth = m
    a, b = M.reg(r.ops[1], env), M.op2(r.ops[2], env, r.name)
    if r.name.endswith("Inverted"):
        b = isel.sgn(~b + 1, 32)
        if b == -2**31:
            return None
    e = dict(env)
    e[M.cc] = isa.arm_int_flags(a, b)
    x = dict(e)
    M.step(r, x, mach.Memory())
    d = r.ops[0]
    return e, {d.v: (x[d.v], d.t)}, stores, truth


def post(J, regs, ints):
    """copies and constants left after register allocation"""
    T, G = J.T, J.G
    for name in ("Copy", "CopyFromReg", "CopyToReg"):
        items = []
        for t, rs in [(t, regs["gpr"]) for t in ints] + [("Float32", regs["fpr"])]:
            for a, b in itertools.product(rs[:3], repeat=2):
                items.append(item(J, Inst(name, [Op("reg", a, t), Op("reg", b, t)]), "postLegalizeInst"))
        for a, b in ((regs["gpr"][0], regs["fpr"][0]), (regs["fpr"][0], regs["gpr"][0])):
            ta, tb = ("Int32", "Float32") if a in regs["gpr"] else ("Float32", "Int32")
            items.append(item(J, Inst(name, [Op("reg", a, ta), Op("reg", b, tb)]), "postLegalizeInst", lambda: [({b: 0x40490fdb if tb == "Float32" else 77, a: GARBAGE}, {a: (None, ta)}, [], False)]))
        J.group("post", name, items)
    items = []
    for t in ints:
        for v in sorted(set(isel.WIDE) | {0x7ff, 0x800, -0x800, -0x801, 0x7fff, 0x8000, 0xffff, 0x10000, -0x8000, -0x8001, 2**31 - 1, -2**31}):
            if isel.fits(v, t):
                items.append(item(J, Inst("LoadImm", [Op("reg", regs["gpr"][0], t), Op("imm", v, t)]), "postLegalizeInst"))
    J.group("post", "LoadImm", items)


def item(J, inst, fn, mean=None):
    def go():
        return J.G.run(fn, [inst, STOP], 0, lambda mem, C, cur: [None, C])
    return repr(inst), go, mean or (lambda: J.meaning(Plan(inst)))


def stack(J, regs, ints):
    """operands that name a stack object"""
    T, M, G = J.T, J.M, J.G
    L = T.L
    sp, top = regs["sp"], 0x100000
    tmp = T.vreg + 1
    obj = Op("reg", T.stk + 3, "Special")

    def legal(insts, idx, off):
        def extra(mem, C, cur):
            S = ("obj", "stk")
            mem[(S, G.off["vk_off"])] = (off, 4)
            return [None, C, Ptr(cur.base, cur.off + L.base + idx * L.stride), Ptr(S)]
        return G.run("legalizeInstWithStackOperand", insts + [STOP], 0, extra)

    def base(off, *more):
        e = {sp: top}
        for r, v in more:
            e[r] = v
        return e
    a, b = regs["gpr"][:2]
    f = regs["fpr"][0]
    ptr = regs["ptr"]
    items = []
    for off in OFFSETS:
        items.append(("LoadStackObjectAddr at %d" % off, lambda off=off: legal([Inst("LoadStackObjectAddr", [Op("reg", a, ptr), obj])], 1, off),
                      lambda off=off: [(base(off, (a, GARBAGE), (b, 3)), {a: (top + off, ptr)}, [], False)]))
    J.group("stack", "LoadStackObjectAddr", items)
    # a spilled value comes back
    wordval = 0x123456789abcdef if M.wide == 64 else 0x12345678
    for name, r, t, vals in (("GPR", a, ptr, [wordval, -wordval, -1, 0]), ("FPR", f, "Float32", [0x3f800000, 0xc0490fdb, 0])):
        items = []
        for off in OFFSETS:
            if off % 4:
                continue

            def go(off=off, r=r, t=t):
                out = []
                for e1, b1 in legal([Inst("StoreRegToStack", [Op("reg", r, t), obj])], 1, off):
                    for e2, b2 in legal([Inst("LoadRegFromStack", [Op("reg", r, t), obj])], 1, off):
                        out.append((e1, None) if b1 is None or b2 is None else (e1, [(0, b1[0][1][:-1] + [Inst("Spoil", [Op("reg", r, t)])] + b2[0][1])]))
                return out
            items.append(("spill and reload of a %s at %d" % (name, off), go, lambda off=off, r=r, t=t, vals=vals: [(base(off, (b if r == a else a, 3), (r, v)), {r: (v, t)}, off + top, False) for v in vals]))
        J.group("stack", "spill-%s" % name, items)
    # memory accesses through a stack object
    for name in sorted(T.num):
        x = T.info.get(name)
        if name in GENERIC or x is None or not set(x.get("Flag") or []) & {"Load", "Store"}:
            continue
        cl = [o["class"] for o in x["operands"]]
        if cl.count("BaseLike") != 1:
            continue
        bi = cl.index("BaseLike")
        ii = [k for k, q in enumerate(cl) if "Imm" in q]
        if len(ii) != 1 or len(cl) > 4:
            continue
        di = T.defidx(name)
        ops, bad = [], False
        for k, o in enumerate(x["operands"]):
            q = o["class"]
            if q in ("GPR", "GPRLike", "IReg"):
                ops.append(Op("reg", a, ints[-1]))
            elif q in ("FPR", "FPR32", "SPR"):
                ops.append(Op("reg", f, "Float32"))
            elif k == bi:
                ops.append(None)
            elif k == ii[0]:
                ops.append(None)
            elif q == "Align":
                ops.append(Op("imm", 4, "Special"))
            else:
                bad = True
        if bad:
            J.c.undec("%s/stack/%s" % (T.name, name), "operands %r" % cl)
            continue
        items = []
        for off in OFFSETS:
            for d in regs["disp"]:
                if off + d < 0 or (ops[0].t == "Float32" and (off + d) % 4):
                    continue
                l = list(ops)
                l[ii[0]] = Op("imm", d, "Int32")
                l1, l2 = list(l), list(l)
                l1[bi] = obj
                l2[bi] = Op("reg", tmp, ptr)

                def mean(l2=l2, off=off):
                    out = []
                    for v in (0x3f800000, 0x40490fdb):
                        e = base(off, (b, 3), (a, v), (f, v))
                        e1 = dict(e)
                        e1[tmp] = top + off
                        m = mach.Memory(truth=False, bits=M.wide)
                        try:
                            M.step(Inst(name, l2), e1, m)
                        except (Bad, Undef):
                            return []
                        out.append((e, {l2[di].v: (e1[l2[di].v], l2[di].t)} if di is not None else {}, m.stores, False))
                    return out
                items.append(("%s of object at %d, displacement %d" % (name, off, d), lambda l1=l1, off=off: legal([Inst(name, l1)], bi, off), mean))
        J.group("stack", name, items)


def adjust(J, regs):
    T, G = J.T, J.G
    a, b = regs["gpr"][:2]
    sp, ptr = regs["sp"], regs["ptr"]
    L = T.L
    items = []
    for d, s in ((sp, sp), (a, sp), (sp, a), (a, a), (a, b)):
        for v in OFFSETS + [-x for x in OFFSETS if x]:
            def extra(mem, C, cur, d=d, s=s, v=v):
                out = []
                for k, r in (("dst", d), ("src", s)):
                    mem.update(L.operand(("obj", k), 0, "reg", r, T.ot[ptr]))
                    out.append(Ptr(("obj", k)))
                return [Ptr(LIST), Ptr(cur.base)] + out + [v]
            items.append(("adjust %%%d = %%%d + %d" % (d, s, v), lambda extra=extra: G.run("adjustReg", [STOP], 0, extra),
                          lambda d=d, s=s, v=v: [(dict({a: 0x30000, b: 0x40000, sp: 0x1000000}), {d: ({a: 0x30000, b: 0x40000, sp: 0x1000000}[s] + v, ptr)}, [], False)]))
    J.group("adjust", "adjustReg", items, where="cmmc/Target/%s/%sISelInfo.cpp" % (T.name, T.name))


def sequence(J, regs):
    """postLegalizeInstSeq on short sequences"""
    T, G, L = J.T, J.G, J.T.L
    a, b, c2 = regs["gpr"][:3]

    def run(insts):
        def extra(mem, C, cur):
            return [None, Ptr(("obj", "ctx")), Ptr(LIST)]
        return G.run("postLegalizeInstSeq", insts, 0, extra)
    delay = [n for n in sorted(T.num) if "WithDelaySlot" in (T.info.get(n, {}).get("Flag") or [])]

    def blank(n):
        ops = []
        for o in T.info[n]["operands"]:
            q = o["class"]
            ops.append(Op("reg", a, "Int32") if "GPR" in q or "Reg" in q else Op("imm", 1, "Int32"))
        return Inst(n, ops)
    plain = [Inst(n, [Op("reg", d, "Int32"), Op("reg", s, "Int32")]) for n, d, s in (("MoveGPR", a, b), ("MoveGPR", b, c2)) if n in T.num]
    for n in delay:
        bad = und = None
        for seq in ([blank(n)], [plain[0], blank(n)], [blank(n), plain[0]], [plain[0], plain[1], blank(n), plain[1]], [plain[0], plain[1], plain[0], blank(n)], [blank(n), blank(n), plain[1]]):
            want = []
            for x in seq:
                want.append(repr(x))
                if x.name in delay:
                    want.append(repr(Inst("Nop", [])))
            try:
                for end, blocks in run(seq):
                    got = [repr(x) for x in blocks[0][1]] if blocks else None
                    if got != want:
                        bad = bad or "%s becomes %s; the instruction after %s is executed before the jump, so it has to be a nop" % (seq, got, n)
            except Undecided as x:
                und = str(x)
        key = "%s/sequence/%s" % (T.name, n)
        if bad:
            J.c.bad(key, "cmmc/Target/%s/%sISelInfo.cpp" % (T.name, T.name), bad)
        elif und:
            J.c.undec(key, und)
        else:
            J.c.ok({"step": "sequence", "instruction": n, "target": T.name})
    pair = [n for n in ("MOVT_MOVW_PAIR",) if n in T.num]
    for n in pair:
        items = []
        for v in sorted({x & 0xffffffff for x in isel.WIDE} | {0xffff, 0x10000, 0x1ffff, 0xffff0000, 0x8000, 0x80000000, 0xfffffffe}):
            i = Inst(n, [Op("reg", a, "Int32"), Op("imm", v, "Int32")])
            items.append((repr(i), lambda i=i: run([plain[0], i, plain[1], STOP]),
                          lambda v=v: [({a: 1, b: 2, c2: 3}, {a: (isel.sgn(v, 32), "Int32"), b: (3, "Int32")}, [], False)]))
        i = Inst(n, [Op("reg", a, "Int32"), Op("reloc", "g", "Int32")])
        items.append((repr(i), lambda i=i: run([i, STOP]), lambda: [({a: 1, b: 2}, {a: (isel.RELOC, "Int32")}, [], False)]))
        J.group("sequence", n, items)
    if not delay and not pair:
        bad = None
        for end, blocks in run([plain[0], plain[1]]):
            if not blocks or [repr(x) for x in blocks[0][1]] != [repr(x) for x in plain]:
                bad = "%s becomes %s" % (plain, blocks)
        J.c.expect(not bad, "%s/sequence" % T.name, "cmmc/Target/%s" % T.name, bad or "", {"step": "sequence", "target": T.name})
