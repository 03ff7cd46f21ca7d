"""Objects of known shape for the abstract interpreter: allocation, standard containers, and the IR
objects of /repo (layout measured from the compiled accessors)."""
from vlib import *
from absint import Machine, Ptr, sym, Stop

OPAQUE = [r"cmmc::Arena::(get|allocate|deallocate)$", r"^std::(__cxx11::)?deque<.*>::(operator\[\]|c?begin|c?end|back|front|push_back|emplace_back|size|empty|deque|~deque|operator=|clear|at|pop_front|pop_back)(<.*>)?$",
          r"^std::(unordered_)?map<.*>::(operator=|map|unordered_map|~map|~unordered_map|c?begin|c?end|find|emplace|insert|operator\[\]|at|size|empty|count|clear)(<.*>)?$",
          r"^std::_Rb_tree_(increment|decrement)$", "UserList::", "TrackableValue::TrackableValue$", "__dynamic_cast", r"report(Fatal|Unreachable|NotImplemented)$"]


import functools


@functools.lru_cache(None)
def strip_args(n):
    """a demangled name without its template arguments"""
    out, d, i = [], 0, 0
    while i < len(n):
        ch = n[i]
        if n.startswith("operator<", i) or n.startswith("operator>", i) or n.startswith("operator->", i):
            k = re.match(r"operator(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)", n[i:]).group(0)
            if not d:
                out.append(k)
            i += len(k)
            continue
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif not d:
            out.append(ch)
        i += 1
    return "".join(out)


@functools.lru_cache(None)
def short(name):
    """container class and method of a demangled name"""
    m = re.search(r"std::(?:__cxx11::)?(deque|map|unordered_map|vector|set|unordered_set)::(~?\w+|operator\S+)$", strip_args(name))
    return (m.group(1), m.group(2)) if m else (None, None)


class Heap:
    """model of allocation and containers; contents live in the machine's memory so that traces fork correctly"""

    MAP = {}  # container -> offsets of (first node, end sentinel, size), measured

    def fresh(self, m, kind):
        m.nalloc = m.mem.get((("heap",), 0), (0, 8))[0]
        m.mem[(("heap",), 0)] = (m.nalloc + 1, 8)
        return Ptr(("obj", kind, m.nalloc))

    # deque of 8-byte elements: length at (("dqn", base, off), 0), elements at ("dq", base, off)
    @staticmethod
    def dq(p):
        return ("dq", p[1], p[2])

    def dqlen(self, m, p):
        return m.mem.get((("dqn",) + tuple(p[1:]), 0), (None, 8))[0]

    def setlen(self, m, p, n):
        m.mem[(("dqn",) + tuple(p[1:]), 0)] = (n, 8)

    def items(self, m, p):
        n = self.dqlen(m, p)
        return None if n is None else [m.load(Ptr(self.dq(p), 8 * i), 8, "ptr") for i in range(n)]

    def maplist(self, m, p):
        return m.mem.get((("mapn",) + tuple(p[1:]), 0), (None, 8))[0]

    def setmap(self, m, p, kind, lst):
        """lst: tuple of (key, value)"""
        p = Ptr(*p[1:]) if isinstance(p, Ptr) else Ptr(p)
        m.mem[(("mapn",) + tuple(p[1:]), 0)] = (tuple(lst), 8)
        hdr = 8 if kind == "unordered_map" else 32
        if kind in self.MAP:
            fo, eo, so = self.MAP[kind]
            end = Ptr(p.base, p.off + eo) if eo is not None else 0
            m.mem[(p.base, p.off + fo)] = (Ptr(("mapnode", p[1], p[2], 0)) if lst else end, 8)
            m.mem[(p.base, p.off + so)] = (len(lst), 8)
        for i, (k, v) in enumerate(lst):
            b = ("mapnode", p[1], p[2], i)
            m.mem[(b, 0)] = (Ptr(("mapnode", p[1], p[2], i + 1)) if i + 1 < len(lst) else 0, 8)
            m.mem[(b, hdr)] = (k, 8)
            m.mem[(b, hdr + 8)] = (v, 8)

    def getmap(self, m, p, kind):
        """current contents, reading values back from the nodes"""
        l = self.maplist(m, p)
        if l is None:
            return None
        hdr = 8 if kind == "unordered_map" else 32
        return [(m.load(Ptr(("mapnode", p[1], p[2], i), hdr), 8, "ptr"), m.load(Ptr(("mapnode", p[1], p[2], i), hdr + 8), 8, "ptr")) for i in range(len(l))]

    def call(self, m, name, args, e):
        if name.endswith("cmmc::Arena::get"):
            return Ptr(("obj", "arena"))
        if name.endswith("cmmc::Arena::allocate"):
            return self.fresh(m, "arena")
        if name in ("operator new", "operator new[]", "malloc"):
            return self.fresh(m, "new")
        if name in ("operator delete", "operator delete[]", "free"):
            return 0
        if name == "std::_Hash_bytes":
            return ("hash",) + tuple(args)
        if name == "__dynamic_cast":
            return 0
        if "UserList::" in name:
            return 0
        if name.endswith("OperandView::OperandView"):
            m.store(m.addr(args[0]), args[1], 8)
            return 0
        v = re.search(r"(Operand|Argument)View::(begin|end)$", name)
        if v and len(args) == 2:
            d = m.load(m.addr(args[1]), 8, "ptr")
            n = self.dqlen(m, d) if isinstance(d, Ptr) else None
            if n is None:
                return None
            r = self.deque(m, v.group(2), [args[0], d])
            if r == 0 and v.group(1) == "Argument" and v.group(2) == "end":
                m.store(m.addr(args[0]), Ptr(self.dq(d), 8 * (n - 1)), 8)
            return r
        cls, meth = short(name)
        if cls == "deque":
            return self.deque(m, meth, args, bool(re.search(r"deque<(unsigned |signed )?(int|long|short|char)\b", name)))
        if cls in ("map", "unordered_map"):
            return self.map(m, cls, meth, args)
        if name == "std::_Rb_tree_decrement" and isinstance(args[0], Ptr):
            b, o = args[0].base, args[0].off
            if b[0] == "mapnode":
                return Ptr(b[:3] + (b[3] - 1,)) if b[3] else None
            l = self.maplist(m, Ptr(b, o - self.MAP["map"][1]))
            return Ptr(("mapnode", b, o - self.MAP["map"][1], len(l) - 1)) if l else None
        if name in ("std::_Rb_tree_increment",):
            n = m.load(args[0], 8, "ptr") if isinstance(args[0], Ptr) and args[0].base[0] == "mapnode" else None
            if n == 0:
                b = args[0].base
                return Ptr(b[1], b[2] + self.MAP["map"][1])
            return n
        return None

    def deque(self, m, meth, a, plain=False):
        if meth == "deque":
            k = self.dqlen(m, a[1]) if len(a) > 1 and isinstance(a[1], Ptr) else None
            self.setlen(m, a[0], k or 0)
            if k and not plain:
                for i in range(k):
                    m.store(Ptr(self.dq(a[0]), 8 * i), m.load(Ptr(self.dq(a[1]), 8 * i), 8, "ptr"), 8)
            return 0
        if meth in ("~deque",):
            return 0
        ret = None
        if meth in ("begin", "cbegin", "end", "cend"):
            ret, p = a[0], a[1]
        else:
            p = a[0]
        if not isinstance(p, Ptr):
            return None
        n = self.dqlen(m, p)
        if n is None:
            return None
        base = self.dq(p)
        if ret is not None:
            cur = 0 if "begin" in meth else n
            r = m.addr(ret)
            for o, v in ((0, Ptr(base, 8 * cur)), (8, Ptr(base, 0)), (16, Ptr(base, 512)), (24, Ptr(("dqmap",) + base[1:], 0))):
                m.store(Ptr(r.base, r.off + o), v, 8)
            return 0
        if meth in ("operator[]", "at"):
            return Ptr(base, 8 * a[1]) if isinstance(a[1], int) and a[1] < n else None
        if meth == "back":
            return Ptr(base, 8 * (n - 1)) if n else None
        if meth == "front":
            return Ptr(base, 0) if n else None
        if meth == "pop_front":
            if not n or not plain:
                return None
            for i in range(1, n):
                m.store(Ptr(base, 8 * (i - 1)), m.load(Ptr(base, 8 * i), 4, "i32"), 4)
            self.setlen(m, p, n - 1)
            return 0
        if meth == "pop_back":
            if not n or not plain:
                return None
            self.setlen(m, p, n - 1)
            return 0
        if meth == "size":
            return n
        if meth == "empty":
            return int(n == 0)
        if meth == "clear":
            self.setlen(m, p, 0)
            return 0
        if meth in ("push_back", "emplace_back"):
            if plain:
                m.store(Ptr(base, 8 * n), m.load(a[1], 4, "i32"), 4)
                self.setlen(m, p, n + 1)
                return Ptr(base, 8 * n)
            v = m.load(a[1], 8, "ptr")
            m.store(Ptr(base, 8 * n), v, 8)
            m.store(a[1], 0, 8)
            self.setlen(m, p, n + 1)
            return Ptr(base, 8 * n)
        return None

    def map(self, m, cls, meth, a):
        if meth in ("rbegin", "rend", "crbegin", "crend") and cls == "map" and isinstance(a[1], Ptr):
            l = self.maplist(m, a[1])
            if l is None:
                return None
            last = Ptr(a[1].base, a[1].off + self.MAP["map"][1]) if "begin" in meth else Ptr(("mapnode", a[1][1], a[1][2], 0)) if l else Ptr(a[1].base, a[1].off + self.MAP["map"][1])
            m.store(m.addr(a[0]), last, 8)
            return 0
        if meth in ("map", "unordered_map"):
            if len(a) >= 2 and isinstance(a[1], Ptr) and self.maplist(m, a[1]) is not None:
                self.setmap(m, a[0], cls, self.getmap(m, a[1], cls))
            else:
                self.setmap(m, a[0], cls, ())
            return 0
        if meth.startswith("~"):
            return 0
        p = a[0]
        if not isinstance(p, Ptr):
            return None
        l = self.maplist(m, p)
        if meth == "operator=":
            src = self.getmap(m, a[1], cls) if isinstance(a[1], Ptr) else None
            if src is None:
                return None
            self.setmap(m, p, cls, src)
            return p
        if l is None:
            return None
        node = lambda i: Ptr(("mapnode", p[1], p[2], i)) if i < len(l) else (0 if cls == "unordered_map" else Ptr(p[1], p[2] + self.MAP["map"][1]))
        if meth in ("begin", "cbegin"):
            return node(0)
        if meth in ("end", "cend"):
            return node(len(l))
        if meth == "size":
            return len(l)
        if meth == "empty":
            return int(not l)
        key = m.load(a[1], 8, "ptr") if len(a) > 1 and isinstance(a[1], Ptr) else None
        cur = self.getmap(m, p, cls)
        hit = None
        for i, (k, v) in enumerate(cur):
            if k == key:
                hit = i
        hdr = 8 if cls == "unordered_map" else 32
        if meth == "find":
            return node(hit if hit is not None else len(l))
        if meth == "count":
            return int(hit is not None)
        if meth in ("operator[]", "at"):
            if hit is None:
                if meth == "at":
                    raise Stop("throw")
                self.setmap(m, p, cls, tuple(cur) + ((key, 0),))
                hit = len(l)
            return Ptr(("mapnode", p[1], p[2], hit), hdr + 8)
        if meth == "emplace" and len(a) == 3:
            if hit is None:
                self.setmap(m, p, cls, tuple(cur) + ((key, m.load(a[2], 8, "ptr")),))
            return ("pair", p, key)
        if meth == "insert" and len(a) == 2:
            k, v = m.load(a[1], 8, "ptr"), m.load(Ptr(a[1].base, a[1].off + 8), 8, "ptr")
            if all(k != x for x, _ in cur):
                self.setmap(m, p, cls, tuple(cur) + ((k, v),))
            return ("pair", p, k)
        return None


IRH = '''
#include <cmmc/IR/Instruction.hpp>
#include <new>
using namespace cmmc;
extern "C" InstructionID vk_id(Instruction* i) { return i->getInstID(); }
extern "C" const Type* vk_type(Instruction* i) { return i->getType(); }
extern "C" void* vk_ops(Instruction* i) { return &i->mutableOperands(); }
extern "C" void* vk_refval(ValueRef* r) { return &r->value; }
extern "C" void* vk_refuser(ValueRef* r) { return &r->user; }
extern "C" void* vk_refnext(ValueRef* r) { return &r->next; }
extern "C" CompareOp vk_cmp(CompareInst* i) { return i->getOp(); }
extern "C" void* vk_bt(BranchInst* i) { return &i->getTrueTarget(); }
extern "C" void* vk_bf(BranchInst* i) { return &i->getFalseTarget(); }
extern "C" double vk_bp(BranchInst* i) { return i->getBranchProb(); }
extern "C" void* vk_sd(SwitchInst* i) { return &i->defaultTarget(); }
extern "C" void* vk_se(SwitchInst* i) { return &i->edges(); }
extern "C" const void* vk_pi(PhiInst* i) { return &i->incomings(); }
template <typename T> static void* vk_raw(T it) { void* p; __builtin_memcpy(&p, &it, 8); return p; }
extern "C" void* vk_sb(SwitchInst* i) { return vk_raw(i->edges().begin()); }
extern "C" void* vk_sn(SwitchInst* i) { return vk_raw(i->edges().end()); }
extern "C" long vk_ss(SwitchInst* i) { return (long)i->edges().size(); }
extern "C" void* vk_pb(PhiInst* i) { return vk_raw(i->incomings().begin()); }
extern "C" long vk_ps(PhiInst* i) { return (long)i->incomings().size(); }
extern "C" long vk_al(StackAllocInst* i) { return (long)i->getAlignment(); }
'''


class IRLayout:
    def __init__(self):
        bc = harness("irlayout", IRH)
        if bc is None:
            raise Broken("instruction interface not recognised")

        def off(fn):
            r = run_tool("spec", {"modules": [bc], "root": "^%s$" % fn, "opaque": [], "queries": [{"id": "x"}], "cfg": True})
            t = [t for t in Machine(r["results"][0], lambda *a: None, [Ptr("I")]).run() if t.end == "ret"]
            v = t[0].ret if len(t) == 1 else None
            if isinstance(v, Ptr) and v.base == "I":
                return v.off
            if isinstance(v, tuple) and v[0] == "ld" and v[1] == "I":
                return v[2]
            raise Broken("instruction layout not recognised (%s: %r)" % (fn, v))
        for k in ("id", "type", "ops", "refval", "refuser", "refnext", "cmp", "bt", "bf", "bp", "sd", "se", "pi", "al", "sb", "sn", "ss", "pb", "ps"):
            setattr(self, k, off("vk_" + k))
        Heap.MAP.update({"map": (self.sb - self.se, self.sn - self.se, self.ss - self.se), "unordered_map": (self.pb - self.pi, None, self.ps - self.pi)})

    def inst(self, base, id_, type_, operands):
        """memory cells of an instruction object; operands: values"""
        m = {(base, self.id): (id_, 4), (base, self.type): (type_, 8)}
        m[(("dqn", base, self.ops), 0)] = (len(operands), 8)
        for i, v in enumerate(operands):
            r = ("obj", "ref", base, i)
            m[(("dq", base, self.ops), 8 * i)] = (Ptr(r), 8)
            m[(r, self.refval)] = (v, 8)
        return m

    def operands(self, h, m, base):
        it = h.items(m, Ptr(base, self.ops))
        if it is None:
            return None
        return [m.load(Ptr(r.base, r.off + self.refval), 8, "ptr") if isinstance(r, Ptr) else None for r in it]
