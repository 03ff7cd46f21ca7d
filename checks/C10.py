"""C10: rewriting a condition (swap, negate, combine) preserves its meaning."""
from _common import *
from vlib import harness
from terms import Eval, Undecided, Trap, P, outcomes, unesc, show
from absint import *
from cmpops import *

HARNESS = '''
#include <cmmc/IR/Instruction.hpp>
#include <cmmc/Transforms/Util/PatternMatch.hpp>
using namespace cmmc;
extern "C" int vk_reversed(int op) { return static_cast<int>(getReversedOp(static_cast<CompareOp>(op))); }
extern "C" int vk_inverted(int op) { return static_cast<int>(getInvertedOp(static_cast<CompareOp>(op))); }
'''
HARNESS2 = '''
#include <cmmc/IR/Instruction.hpp>
#include <cmmc/Transforms/Util/PatternMatch.hpp>
using namespace cmmc;
struct VkLhs { bool operator()(const MatchContext<Value>&) const noexcept; };
struct VkRhs { bool operator()(const MatchContext<Value>&) const noexcept; };
extern "C" bool vk_match(const MatchContext<Value>& ctx, CompareOp& op, VkLhs l, VkRhs r) { return xcmp(op, l, r)(ctx); }
'''


def table(c, bc, fn, cmps):
    r = run_tool("spec", {"modules": [bc], "root": "^%s$" % fn, "opaque": [], "queries": [{"id": n, "args": {"0": v}} for n, v in cmps.items()]})
    out = {}
    for x in r["results"]:
        out[x["id"]] = int(x["rets"][0]) if len(x["rets"]) == 1 and x["rets"][0].lstrip("-").isdigit() else None
    return out


def combine(c, cmps, ids):
    """CompareCombine: reuse of an earlier comparison only when it is equal, negation only when it is the opposite"""
    bc = bitcode(["Transforms/Combine/CompareCombine.cpp"])
    c.units.add("Transforms/Combine/CompareCombine.cpp")
    names = {v: k for k, v in cmps.items()}
    opq = [{"re": "getInstID|CompareInst::getOp$|Instruction::getOperand", "eff": "none"},
           "unordered_map|vector|Hash|IRBuilder|makeOp|replaceWith|setOp|Arena|setInsertPoint|applyReplace|make<|IntrusiveList|__normal_iterator"]
    for kind in ("ICmp", "FCmp"):
        r = run_tool("spec", {"modules": bc, "root": r"CompareCombine::run$", "root_full": r"Manager&\) const$", "opaque": opq,
                              "queries": [{"id": kind, "seeds": [{"re": "getInstID", "val": ids[kind]}]}],
                              "sinks": [r"unordered_map<cmmc::Value\*, cmmc::Value\*.*::(emplace|insert|operator\[\]|try_emplace|insert_or_assign)", "makeOp", "replaceWith"],
                              "tree": True, "tree_from": "getOp$", "tree_prune": True})
        if len(r["roots"]) != 1 or not r["results"][0]["found"]:
            c.undec("combine/" + kind, "comparison region not recognised")
            continue
        tree = r["results"][0]["tree"]
        ops = [n for n in cmps if n.startswith(kind)]
        done = 0
        for a in ops:
            for b in ops:
                for sw in (False, True):
                    subj = {}

                    def model(t, ev):
                        if isinstance(t, str):
                            return None
                        if t[0] != "call":
                            return None
                        f = unesc(t[1])
                        if f.endswith("CompareInst::getOp"):
                            k = subj.setdefault(t[2], len(subj))
                            if k > 1:
                                raise Undecided("a third comparison")
                            return cmps[(a, b)[k]]
                        if f.endswith("::getOperand"):
                            k = subj.setdefault(t[2], len(subj))
                            i = ev(t[3])
                            if k > 1:
                                raise Undecided("a third comparison")
                            return ("op", i if not (sw and k == 1) else 1 - i)
                        return None
                    try:
                        _, outs = outcomes(tree, model)
                    except (Undecided, Trap) as e:
                        c.undec("combine/%s/%s/%s" % (kind, a, b), str(e))
                        continue
                    tb = swapped(truth(b)) if sw else truth(b)
                    # evaluation order fixes which comparison was called first; the relation is symmetric either way
                    for evs, _ in outs:
                        inv = any("makeOp" in e[0] for e in evs)
                        use = inv or any("unordered_map" in e[0] or "replaceWith" in e[0] for e in evs)
                        if not use:
                            continue
                        done += 1
                        want = negated(tb) if inv else tb
                        if truth(a) != want:
                            c.bad("combine/%s" % kind, [e for e in evs if e[0] != "store"][0][2], "%s is replaced by %s%s (operands %s), which is a different condition" %
                                  (a, "the negation of " if inv else "", b, "swapped" if sw else "in the same order"))
                            return
        c.expect(done > 0, "combine/%s/none" % kind, "cmmc/Transforms/Combine/CompareCombine.cpp", "unreachable") if done else c.undec("combine/" + kind, "no reuse found")
        c.cov.setdefault("reuse_pairs", {})[kind] = done


def swaps(c, files, cls, root_re, cmps, ids):
    """on every path, a comparison whose operands (or whose branch's targets) are exchanged gets the reversed (negated) condition"""
    bc = bitcode(files)
    c.units |= set(files)
    names = {v: k for k, v in cmps.items()}
    opq = [{"re": "getInstID|CompareInst::getOp$|Instruction::getOperand|mutableOperands|TrackableValue::hasExactlyOneUse|isConstant|dominate$|getTrueTarget|getFalseTarget|getBranchProb", "eff": "none"},
           "std::swap|swap<|unordered_map|vector|Hash|IRBuilder|makeOp|replaceWith|setOp|Arena|setInsertPoint|applyReplace|make<|IntrusiveList|__normal_iterator|[dD]eque|updateBranchProb|resetValue|insertBefore|ConstantInteger|__dynamic_cast",
           "GenericMatcher|std::__cxx11::list|Stage|getPassResult"]
    r = run_tool("spec", {"modules": bc, "root": root_re, "opaque": opq, "queries": [{"id": "x"}], "cfg": True, "region": "swap"})
    n = 0
    for x in r["results"]:
        if not any("swap" in e.get("call", "") for b in x["blocks"] for e in b["ev"]):
            continue
        for op, fixed in [(o, f) for o in cmps for f in (False, True)]:
            kind = op[:4]

            def call(m, name, args, e):
                if name.endswith("CompareInst::getOp"):
                    return cmps[op]
                if name.endswith("getInstID"):
                    return ids[kind] if fixed else ("id", args[0])
                return None
            m = Machine(x, call, visits=1, start=x.get("region", 0), max_traces=3000, keep=lambda k: True)
            m.restrict(lambda f: "swap" in f or f.endswith("::setOp"))
            try:
                traces = m.run()
            except (Undecided, Trap) as e:
                c.undec("%s/%s" % (cls, op), str(e))
                continue
            for t in traces:
                assumed = {}
                for cond, pol in t.assume.items():
                    if pol and cond[0].startswith("icmp-eq"):
                        for a, b in ((cond[1], cond[2]), (cond[2], cond[1])):
                            if sym(a) and a[0] == "id" and isinstance(b, int):
                                assumed[a[1]] = b
                sw = [e for e in t.events if "swap" in e[0]]
                tgt = [e for e in sw if "Target" in str(e[1])]
                opn = [e for e in sw if "mutableOperands" in str(e[1])]
                sets = [e for e in t.events if e[0].endswith("::setOp")]
                if len(opn) > 1 or len(tgt) > 1 or not sw:
                    continue
                # the kind of the instruction whose operands are exchanged
                cur = {truth(op)}
                want = set()
                if opn:
                    obj = owner(opn[0][1][0])
                    k = ids[kind] if fixed else assumed.get(obj)
                    if k is not None and k != ids[kind]:
                        continue
                    if k is None and not any("CompareInst" in str(q) and pol for q, pol in t.assume.items()):
                        continue
                    want.add(swapped(truth(op)))
                if tgt:
                    want.add(negated(truth(op)))
                n += 1
                if any(not isinstance(e[1][1], int) for e in sets):
                    c.undec("%s/%s" % (cls, op), "stored condition not resolved")
                    continue
                got = {truth(names.get(e[1][1], "?")) for e in sets} - cur
                if got != want - cur:
                    # other rewrites on the same path are out of scope
                    if len(sets) > len(opn) + len(tgt):
                        continue
                    c.bad("%s/swap" % cls, sw[0][3], "%s: %s exchanged for a comparison %s and the condition becomes %s" %
                          (cls, "the branch targets are" if tgt else "the operands are", op, sorted(names.get(e[1][1]) for e in sets) or "the same"))
                    return
    if n:
        c.ok({"rewrite": cls, "paths": n})
    else:
        c.undec(cls, "no swap found")


def owner(v):
    """the instruction a reference to an operand slot belongs to"""
    while sym(v):
        if v[0] == "ptr":
            v = v[1]
        elif v[0] == "call":
            if v[1].endswith("mutableOperands"):
                return v[2]
            v = v[2] if len(v) > 2 else None
        else:
            return None
    return None


def body(c):
    cmps = enum_values("cmmc/IR/Instruction.hpp", "CompareOp")
    ids = enum_values("cmmc/IR/Instruction.hpp", "InstructionID")
    names = {v: k for k, v in cmps.items()}
    h = harness("C10", HARNESS)
    c.units.add("IR/Instruction.hpp")
    for fn, want, what in (("vk_reversed", swapped, "swapping the operands of"), ("vk_inverted", negated, "negating")):
        tab = table(c, h, fn, cmps) if h else {}
        for op in cmps:
            if truth(op) is None:
                c.undec(op, "unknown condition")
            elif tab.get(op) is None:
                c.undec("%s/%s" % (fn, op), "result is not a constant")
            else:
                got = names.get(tab[op])
                c.expect(got is not None and truth(got) == want(truth(op)), "%s/%s" % (fn[3:], op), "cmmc/IR/Instruction.hpp",
                         "%s %s gives %s, which does not hold for the required operand orderings" % (what, op, got), {"op": op, fn[3:]: got})
    # the pattern matcher that accepts a comparison with its operands swapped
    h2 = harness("C10m", HARNESS2)
    if h2:
        r = run_tool("spec", {"modules": [h2], "root": "^vk_match$", "cfg": True, "queries": [{"id": "m"}],
                              "opaque": [{"re": "VkLhs::|VkRhs::", "eff": "any"}, {"re": "getInstID|CompareInst::getOp$|Instruction::getOperand", "eff": "none"}]})
        for op in cmps:
            if not matcher(c, r["results"][0], op, cmps, names):
                break
    else:
        c.undec("matcher", "matcher interface changed")
    combine(c, cmps, ids)
    swaps(c, ["Transforms/Misc/InstReorder.cpp"], "InstReorder", r"InstReorder::rearrangeCommutative$|InstReorder::run$", cmps, ids)
    swaps(c, ["Transforms/Loop/LoopCanonicalize.cpp"], "LoopCanonicalize", r"LoopCanonicalize::run$", cmps, ids)
    c.floor(44, "condition rewrites")


def matcher(c, fn, op, cmps, names):
    """the matchers' calls are resolved by the operand they inspect; the condition reported must be the one seen with lhs first"""
    def call(m, name, args, e):
        if name.endswith("CompareInst::getOp"):
            return cmps[op]
        if "VkLhs" in name or "VkRhs" in name:
            v = m.load(args[-1], 8, "ptr") if isinstance(args[-1], Ptr) else args[-1]
            return ("match", "L" if "VkLhs" in name else "R", v)
        return None
    m = Machine(fn, call, keep=lambda k: True)
    try:
        traces = m.run()
    except (Undecided, Trap) as e:
        c.undec("matcher/" + op, str(e))
        return True
    n = 0
    for t in traces:
        acc = t.ret
        seen = {}
        for cond, pol in t.assume.items():
            if cond[0] == "match" and pol:
                seen[cond[1]] = cond[2]
        if sym(acc) and acc[0] == "match":
            seen[acc[1]] = acc[2]
        elif acc != 1:
            continue
        if set(seen) != {"L", "R"}:
            c.undec("matcher/" + op, "accepting path not recognised")
            return True
        idx = {k: v[-1] for k, v in seen.items() if sym(v) and v[0] == "call" and v[1].endswith("getOperand")}
        if sorted(map(str, idx.values())) != ["0", "1"]:
            c.undec("matcher/" + op, "operands not resolved")
            return True
        got = t.mem.get(("arg1", 0), (None,))[0]
        if not isinstance(got, int):
            c.undec("matcher/" + op, "condition not resolved")
            return True
        want = truth(op) if idx["L"] == 0 else swapped(truth(op))
        n += 1
        if truth(names.get(got, "?")) != want:
            c.bad("matcher/" + op, "cmmc/Transforms/Util/PatternMatch.hpp", "matching a comparison %s with its operands %s reports the condition %s" %
                  (op, "in order" if idx["L"] == 0 else "swapped", names.get(got)))
            return False
    if n:
        c.ok()
    else:
        c.undec("matcher/" + op, "no accepting path recognised")
    return True


main("C10", "other", "complete tables of the condition-rewriting functions, and of the rewrites that use them, extracted by conditional constant propagation and compared "
     "with the conditions' truth sets over all operand orderings", body)
