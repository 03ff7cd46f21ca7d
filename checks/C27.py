"""The run-time helpers linked into compiled programs do what the optimiser's calls assume."""
from _common import *
import os, random
from absint import Machine, Ptr, Undecided, Stop, sym
import heap

SRC = "cmmc/Runtime/cmmc_sysy_rt.cpp"
FUTEX = 202
I32 = lambda v: (v + 2**31) % 2**32 - 2**31


class Bad(Exception):
    pass


def cas(m, size, args, forced):
    """outcome of an atomic compare-and-exchange: both are possible unless the schedule is fixed"""
    exp, new = args[1], args[2]
    m.ncas = getattr(m, "ncas", 0)
    ok = 1 if forced else int(m.truth(("cas", sum(1 for e in m.events if e[0].startswith("atomic.")))))
    return ("agg", exp if ok else (1 - exp if exp in (0, 1) else ("seen", len(m.events))), ok)


def word(p):
    while isinstance(p, tuple) and not isinstance(p, Ptr) and p[0].startswith("ptrtoint"):
        p = p[1]
    if not isinstance(p, Ptr):
        raise Undecided("futex word %r" % (p,))
    return p


def protocol(events, own=lambda p: True):
    """the futex steps of one trace as acquire / release; every release wakes, nothing goes on before it has acquired"""
    res = []
    trying = wake = None
    for n, (name, args, r, loc) in enumerate(events):
        if name.startswith("atomic."):
            w = word(args[0])
            if name == "atomic.cmpxchg":
                step = (args[1], args[2])
                ok = r[2]
            elif name == "atomic.xchg":
                step = (1 - args[1], args[1])
                ok = r == step[0]
            else:
                raise Undecided(name)
            if step not in ((1, 0), (0, 1)):
                raise Bad("%s: a semaphore goes from %s to %s" % (loc, step[0], step[1]))
            if step == (1, 0):
                if wake:
                    raise Bad("%s: a semaphore is posted and its waiter is not woken before the next wait" % loc)
                if trying not in (None, w):
                    raise Bad("%s: goes on to another semaphore without having been signalled" % loc)
                trying = None if ok else w
                if ok:
                    res.append(("acq", w, n, loc))
            else:
                if trying:
                    raise Bad("%s: posts without having been signalled" % loc)
                if wake:
                    raise Bad("%s: a semaphore is posted and its waiter is not woken" % loc)
                wake = w if ok else None
                res.append(("rel", w, n, loc))
        elif name == "syscall" and args[0] == FUTEX:
            w, op, v = word(args[1]), args[2] & 127, args[3]
            if op == 0:
                if w != trying:
                    raise Bad("%s: sleeps on a semaphore it has not found unsignalled" % loc)
                if v != 0:
                    raise Bad("%s: sleeps while the semaphore is %s, which is when it is signalled" % (loc, v))
                if args[4] not in (0, ("null",), "null", None) and not (isinstance(args[4], Ptr) and args[4].base in (0, "null")):
                    raise Undecided("a timed wait")
            elif op == 1:
                if w != wake:
                    raise Bad("%s: wakes another semaphore than the one posted" % loc)
                if v < 1:
                    raise Bad("%s: wakes nobody" % loc)
                wake = None
            else:
                raise Undecided("futex operation %s" % op)
        elif name in ("syscall", "sched_setaffinity", "clock_gettime", "sched_yield"):
            pass
        elif name == "store":
            p = args[0]
            res.append(("store", p, args[1], loc))
        else:
            if trying:
                raise Bad("%s: goes on without having been signalled" % loc)
            if wake:
                raise Bad("%s: a semaphore is posted and its waiter is not woken" % loc)
            res.append(("call", name, args, n, loc))
    return res, trying, wake


def body(c):
    bc = harness("runtime", '#include "%s/%s"\nextern "C" int (*vk_worker)(void*) = cmmcWorker;\n' % (REPO, SRC))
    if bc is None:
        c.undec("runtime", "the runtime library is not in its usual place")
        return
    names = ["cmmcParallelFor", "cmmcCacheLookup", "cmmcAddRec3SRem", "cmmcReduceAddI32", "cmmcReduceAddF32", "cmmcInitRuntime", "cmmcUninitRuntime"]
    r = run_tool("spec", {"modules": [bc], "root": "^(%s)$|cmmcWorker$" % "|".join(names), "opaque": ["^__cxa"], "queries": [{"id": "x"}], "cfg": True, "globals": "."})
    by = {}
    for f in r["results"]:
        by["cmmcWorker" if f["name"].endswith("cmmcWorker") else f["name"]] = f
    c.units.update(by)
    for n in names + ["cmmcWorker"]:
        n in by or c.undec("cov/" + n, "%s was not found" % n)
    W = Ptr(("obj", "worker"))
    count = {"traces": 0, "calls": 0, "histories": 0}

    # ---------------------------------------------------------------- start and stop
    def zero(m, p, size, ty):
        if isinstance(p.base, str) or isinstance(p.base, tuple) and p.base[:1] == ("obj",):
            return 0

    starts, stops = [], []
    if "cmmcInitRuntime" in by:
        key = "start"
        try:
            def ci(m, name, args, e):
                if name == "mmap":
                    m.nmap = getattr(m, "nmap", 0) + 1
                    count.setdefault("stack", {})[len(m.events)] = args[1]
                    return Ptr(("stack", len(m.events), args[1]))
                if name == "clone":
                    fn, sp, flags, arg = args[:4]
                    where = "%s: " % e.get("loc", SRC)
                    if not (isinstance(fn, Ptr) and "cmmcWorker" in str(fn.base)):
                        raise Bad(where + "a worker thread does not run the worker loop")
                    if not (isinstance(sp, Ptr) and sp.base[0] == "stack"):
                        raise Undecided("stack of a worker")
                    if not sp.base[2] // 2 < sp.off <= sp.base[2]:
                        raise Bad(where + "the stack of a worker grows down from offset %s of %s bytes" % (sp.off, sp.base[2]))
                    if sp.off % 16:
                        raise Bad(where + "the stack of a worker is not aligned")
                    if flags & 0x100 == 0:
                        raise Bad(where + "a worker does not share the memory of the program")
                    if sp.base in [s[1].base for s in starts]:
                        raise Bad(where + "two workers share a stack")
                    starts.append((arg, sp, {o: m.load(Ptr(arg.base, o), 4, "i32") for o in range(arg.off, arg.off + 48, 4)}))
                    return 1000 + len(starts)
            m = Machine(by["cmmcInitRuntime"], call=ci, load=zero, visits=40)
            m.run()
            c.expect(len(set(s[0] for s in starts)) == len(starts) >= 1, key, SRC, "two workers share their state")
            init_mem = m.mem
        except Bad as x:
            c.bad(key, SRC, str(x))
        except Undecided as x:
            c.undec(key, str(x))
    run_off = None
    if "cmmcUninitRuntime" in by and starts:
        key = "stop"
        try:
            tr = Machine(by["cmmcUninitRuntime"], call=lambda m, n, a, e: cas(m, 4, a, True) if n == "atomic.cmpxchg" else 0 if n in ("syscall", "waitpid") else None, load=lambda m, p, s, t: ("pid", p.off), visits=40).run()[0]
            res, _, wake = protocol(tr.events)
            if wake:
                raise Bad("a stopped worker is not woken")
            flag = {}
            ended = []
            waited = []
            for ev in res:
                if ev[0] == "store":
                    flag[ev[1]] = ev[2]
                elif ev[0] == "rel":
                    ended.append(ev[1].off)
                    cand = [p.off for p, v in flag.items() if v == 0]
                    if not cand:
                        raise Bad("%s: a worker is woken for the last time before it was told to stop" % ev[3])
                    stops.append((cand[-1], ev[1].off))
                elif ev[0] == "call" and ev[1] == "waitpid":
                    waited.append(ev[2][0])
            bases = sorted(s[0].off for s in starts)
            run_off = stops[0][0] - bases[0] if stops else None
            ready_off = stops[0][1] - bases[0] if stops else None
            if [(s - run_off, w - ready_off) for s, w in stops] != [(b, b) for b in bases]:
                raise Bad("not every worker started is told to stop and woken")
            if len(set(waited)) != len(bases):
                raise Bad("not every worker is waited for at the end")
            for arg, sp, mem in starts:
                if mem.get(arg.off + run_off, 0) == 0:
                    raise Bad("a worker starts with its run flag clear and ends at once")
            c.ok(key)
        except Bad as x:
            c.bad(key, SRC, str(x))
        except Undecided as x:
            c.undec(key, str(x))

    # ---------------------------------------------------------------- the worker loop: acquire, run the task just published, release
    role = None
    if "cmmcWorker" in by:
        key = "worker"

        def cw(m, name, args, e):
            if len([x for x in m.events if x[0] != "store"]) > (14 if c.tier == "quick" else 20):
                raise Stop("enough")
            if name == "atomic.cmpxchg":
                r = cas(m, 4, args, False)
                m.havoc([])
                return r
            if name == "syscall":
                m.havoc([])
                return 0
            if name == "sched_setaffinity":
                return 0
        try:
            trs = Machine(by["cmmcWorker"], call=cw, args=[W], visits=20, max_traces=40000, max_steps=2000).run()
            count["traces"] += len(trs)
            roles, done = set(), 0
            for tr in trs:
                res, trying, wake = protocol(tr.events)
                acq = None
                for ev in res:
                    if ev[0] == "acq":
                        if acq is not None:
                            raise Bad("%s: waits again without having completed its task" % ev[3])
                        acq = ev
                        ran = None
                    elif ev[0] == "call":
                        if acq is None:
                            raise Bad("%s: runs a task without having been signalled" % ev[4])
                        if ran:
                            raise Bad("%s: runs its task twice" % ev[4])
                        epoch = sum(1 for x in tr.events[:acq[2] + 1] if x[0] in ("atomic.cmpxchg", "syscall"))
                        offs = []
                        for a in ev[2][:3]:
                            while isinstance(a, tuple) and not isinstance(a, Ptr) and a[0].startswith("inttoptr"):
                                a = a[1]
                            if isinstance(a, Ptr) and isinstance(a.base, tuple) and a.base[0] == "ld":
                                a = a.base
                            if not (isinstance(a, tuple) and a[0] == "ld" and a[1] == W.base):
                                raise Undecided("task of a worker: %r" % (a,))
                            if a[4] < epoch:
                                raise Bad("%s: uses a task it read before it was signalled" % ev[4])
                            offs.append(a[2])
                        if run_off is not None:
                            known = [k for k in tr.assume if any(isinstance(x, tuple) and x[:1] == ("ld",) and x[2] == run_off and x[4] >= epoch for x in k[1:])]
                            if not known:
                                raise Bad("%s: runs a task without having looked whether it is to stop" % ev[4])
                        ran = tuple(offs)
                    elif ev[0] == "rel":
                        if acq is None or not ran:
                            raise Bad("%s: reports completion of a task it has not run" % ev[3])
                        roles.add((acq[1].off, ran, ev[1].off))
                        done += 1
                        acq = None
                if wake and tr.end == "ret":
                    raise Bad("ends without waking the thread that waits for it")
                if trying and tr.end == "ret":
                    raise Bad("ends while waiting")
                if tr.end == "ret":
                    if acq is not None and ran:
                        raise Bad("ends without reporting completion")
                    if run_off is not None:
                        last = [v if k[0].startswith("icmp-eq") else not v for k, v in tr.assume.items() if any(isinstance(x, tuple) and x[:1] == ("ld",) and x[2] == run_off for x in k[1:])]
                        if last and not any(last):
                            raise Bad("ends although it was not told to stop")
            if done < 50:
                raise Undecided("few iterations")
            count["worker iterations"] = done
            if len(roles) != 1:
                raise Bad("the semaphores and task fields of a worker differ between iterations: %s" % sorted(roles))
            role = roles.pop()
            if stops and role[0] != ready_off:
                raise Bad("the worker waits for another semaphore than the one posted to stop it")
            c.ok(key)
        except Bad as x:
            c.bad(key, SRC, "cmmcWorker: %s" % x)
        except Undecided as x:
            c.undec(key, str(x))

    # ---------------------------------------------------------------- parallel for
    f = by.get("cmmcParallelFor")
    if f and role and starts:
        base = starts[0][0].base
        slots = sorted(s[0].off for s in starts)
        stride = slots[1] - slots[0] if len(slots) > 1 else 1 << 20
        R, (F, B, E_), D = role

        def call(beg, end, fn, mem, delay, forced=True):
            out = []

            def cp(m, name, args, e):
                if name == "atomic.cmpxchg":
                    if not forced and len(m.events) > 60:
                        raise Stop("enough")
                    w = word(args[0])
                    # in free schedules each semaphore is found in the other state at most once
                    r = cas(m, 4, args, forced or list(args[1:3]) == [0, 1] or any(x[0] == name and x[1][0] == w and not x[2][2] for x in m.events))
                    if args[1:3] == [0, 1] and r[2] and w.base == base:
                        k = (w.off - R) // stride * stride
                        m.posts.append((len(m.events), k, tuple(m.load(Ptr(base, k + o), s, t) for o, s, t in ((F, 8, "ptr"), (B, 4, "i32"), (E_, 4, "i32")))))
                    return r
                if name == "syscall":
                    return 0
                if name == "clock_gettime":
                    m.clock = getattr(m, "clock", 0) + delay
                    m.store(args[1], m.clock // 10**9, 8)
                    m.store(Ptr(args[1].base, args[1].off + 8), m.clock % 10**9, 8)
                    return 0
                if name.startswith("user"):
                    return ("void",)
            m = Machine(f, call=cp, args=[beg, end, Ptr("@" + fn)], load=zero, mem0=mem, visits=30, max_steps=20000, max_traces=4000)
            old = m.trace

            def tr():
                m.posts = []
                m.clock = 0
                t = old()
                if t is not None:
                    t.env = {"posts": m.posts}
                return t
            m.trace = tr
            res = m.run()
            if m.truncated:
                raise Undecided("cmmcParallelFor does not end")
            count["calls"] += 1
            return res

        def judge(tr, beg, end, fn):
            res, trying, wake = protocol(tr.events)
            if wake:
                raise Bad("a worker is posted and not woken")
            if tr.end != "ret":
                return 0
            if trying:
                raise Bad("returns while it waits for a worker")
            got, open_ = [], set()
            posts = {n: (k, t) for n, k, t in tr.env["posts"]}
            for ev in res:
                if ev[0] == "call":
                    if ev[1] != fn:
                        raise Bad("%s: calls %s instead of the loop's body" % (ev[4], ev[1]))
                    got.append(tuple(ev[2][:2]))
                elif ev[0] == "rel":
                    k = ev[1].off - R
                    if ev[1].base != base or k not in slots:
                        raise Bad("%s: posts something that is no worker's semaphore" % ev[3])
                    if k in open_:
                        raise Bad("%s: gives a second task to a worker that has not completed its first" % ev[3])
                    open_.add(k)
                    if ev[2] in posts:
                        t = posts[ev[2]][1]
                        if t[0] != Ptr("@" + fn):
                            raise Bad("%s: a worker is signalled before it is given the loop's body" % ev[3])
                        if any(sym(x) for x in t[1:]):
                            raise Undecided("task %r" % (t,))
                        got.append(t[1:])
                elif ev[0] == "acq":
                    k = ev[1].off - D
                    if ev[1].base != base or k not in slots:
                        raise Bad("%s: waits for something that is no worker's completion" % ev[3])
                    if k not in open_:
                        raise Bad("%s: waits for a worker that was given nothing" % ev[3])
                    open_.discard(k)
            if open_:
                raise Bad("returns before every worker it gave a task has completed")
            got = sorted(g for g in got if g[0] != g[1])
            want = [(beg, end)] if beg < end else []
            cur = beg
            for a, b in got:
                if a != cur or b < a:
                    raise Bad("the range [%d, %d) is executed as %s" % (beg, end, got))
                cur = b
            if cur != max(beg, end):
                raise Bad("the range [%d, %d) is executed as %s" % (beg, end, got))
            return len(got)

        rnd = random.Random(1)
        sizes = [1, 2, 15, 16, 17, 18, 21, 30, 33, 100, 1001, 65537] + ([3, 4, 5, 7, 8, 12, 19, 20, 22, 23, 24, 25, 31, 32, 34, 47, 63, 64, 65, 127, 255, 4095, 2**20 + 3, 2**30 + 1] if c.tier != "quick" else [])
        probe = (1, 2, 99, 100, 101, 119, 120, 121, 139, 140, 141, 158, 159, 160, 161, 162)
        parts = set()
        for size in sizes:
            key = "partition/%d" % size
            try:
                for delays in ((1, 2, 3), (3, 1, 2), (3, 2, 1)):
                    mem = {}
                    for h in range(1, 163):
                        d = 1000 * delays[min(2, max(0, (h - 100) // 20))]
                        trs = call(0, size, "user", mem, d)
                        n = [judge(t, 0, size, "user") for t in trs]
                        parts.add(n[0])
                        if h in probe:
                            for beg in (-7, 5, -size // 2, -2**31, 2**31 - 1 - size, rnd.randrange(-2**30, 2**30)):
                                for t in call(beg, beg + size, "user", mem, d):
                                    judge(t, beg, beg + size, "user")
                        mem = dict(trs[0].mem)
                        mem = {k: v for k, v in mem.items() if isinstance(k[0], str)}
                        if size < 16 and h > 3:
                            break
                c.ok(key)
            except Bad as x:
                c.bad(key, SRC, "cmmcParallelFor: %s" % x)
            except Undecided as x:
                c.undec(key, str(x))
        c.expect(max(parts or {0}) >= 1, "partition/threads", SRC, "no loop is executed")
        c.cov["pieces a range is divided into"] = sorted(parts)
        key = "partition/empty"
        try:
            for beg, end in ((0, 0), (5, 5), (5, 4), (7, -7), (2**31 - 1, -2**31), (-2**31, -2**31)):
                for t in call(beg, end, "user", {}, 1):
                    judge(t, beg, beg, "user")
            c.ok(key)
        except Bad as x:
            c.bad(key, SRC, "cmmcParallelFor: %s" % x)
        except Undecided as x:
            c.undec(key, str(x))
        key = "partition/many-loops"
        try:
            mem = {}
            for h in range(400 if c.tier == "quick" else 1500):
                size, fn = rnd.choice((16, 40, 41, 100, 103)) + rnd.randrange(8), "user%d" % rnd.randrange(4)
                beg = rnd.randrange(-50, 50)
                trs = call(beg, beg + size, fn, mem, rnd.randrange(1, 10))
                for t in trs:
                    judge(t, beg, beg + size, fn)
                mem = {k: v for k, v in trs[0].mem.items() if isinstance(k[0], str)}
            c.ok(key)
        except Bad as x:
            c.bad(key, SRC, "cmmcParallelFor: %s" % x)
        except Undecided as x:
            c.undec(key, str(x))
        key = "partition/schedules"
        try:
            n = 0
            for t in call(0, 100, "user", {}, 1, forced=False):
                judge(t, 0, 100, "user")
                n += 1
            count["traces"] += n
            if n < 8:
                raise Undecided("few schedules")
            c.ok(key)
        except Bad as x:
            c.bad(key, SRC, "cmmcParallelFor: %s" % x)
        except Undecided as x:
            c.undec(key, str(x))
    elif f:
        c.undec("partition", "workers not understood")

    # ---------------------------------------------------------------- memo table
    f = by.get("cmmcCacheLookup")
    if f:
        T = Ptr(("obj", "lut"))
        SLOTS, VAL, HAS = 1021, 8, 12

        def look(k, mem):
            m = Machine(f, args=[T, k[0], k[1]], load=lambda m, p, s, t: 0 if p.base == T.base or isinstance(p.base, str) else None, mem0=mem, visits=40, max_traces=4)
            trs = m.run()
            if len(trs) != 1:
                raise Undecided("memo table")
            t = trs[0]
            e = t.ret
            if not isinstance(e, Ptr):
                raise Undecided("entry %r" % (e,))
            if e.base == T.base and (e.off % 16 or not 0 <= e.off < 16 * SLOTS):
                raise Bad("the entry for %s lies outside the table" % (k,))
            for ev in t.events:
                if ev[0] == "store" and isinstance(ev[1][0], Ptr) and ev[1][0].base == T.base and not 0 <= ev[1][0].off < 16 * SLOTS:
                    raise Bad("writes outside the table")
            count["calls"] += 1
            return e, {k_: v for k_, v in t.mem.items()}

        def get(mem, p):
            x = mem.get((p.base, p.off))
            return x[0] if x and x[1] == 4 else 0 if x is None else None

        def put(mem, p, v):
            mem = dict(mem)
            mem[(p.base, p.off)] = (v, 4)
            return mem

        def explore(keys, depth, length):
            seen = set()

            def go(mem, stack, trail, left):
                s = (tuple(sorted((str(k), str(v)) for k, v in mem.items())), tuple(stack))
                if (s, left) in seen or left == 0:
                    return
                seen.add((s, left))
                count["histories"] += 1
                if stack:
                    k, e = stack[-1]
                    m2 = put(put(mem, Ptr(e.base, e.off + HAS), 1), Ptr(e.base, e.off + VAL), 100 + keys.index(k))
                    go(m2, stack[:-1], trail + ["%s returns" % (k,)], left - 1)
                if len(stack) < depth:
                    for k in keys:
                        if any(k == x for x, _ in stack):
                            continue
                        e, m2 = look(k, mem)
                        has = get(m2, Ptr(e.base, e.off + HAS))
                        if has is None or sym(has):
                            raise Undecided("contents of an entry")
                        if has:
                            v = get(m2, Ptr(e.base, e.off + VAL))
                            if v != 100 + keys.index(k):
                                raise Bad("a call with arguments %s is answered with the result for %s, after: %s" % (
                                    k, keys[v - 100] if type(v) is int and 100 <= v < 100 + len(keys) else "other arguments", ", ".join(trail + ["%s called" % (k,)])))
                            go(m2, stack, trail + ["%s found" % (k,)], left - 1)
                        else:
                            go(m2, stack + [(k, e)], trail + ["%s called" % (k,)], left - 1)
            go({}, [], [], length)

        n = 6 if c.tier == "quick" else 7
        for label, keys in (("zero", [(0, 0), (0, 1), (1, 0)]), ("negative", [(1, -1), (2, -1), (-1, -1), (-1, 0)]), ("extreme", [(2**31 - 1, -2**31), (-2**31, 2**31 - 1), (-2**31, -2**31)]),
                            ("same slot", [(0, 0), (1021, 0), (2042, 0)]), ("same slot, second argument", [(3, 5), (3, 1026), (3, 2047)]), ("second argument only", [(7, 0), (7, 4), (7, -4)])):
            key = "memo/%s" % label
            try:
                explore(keys, 3, n)
                c.ok(key)
            except Bad as x:
                c.bad(key, SRC, "cmmcCacheLookup: %s" % x)
            except Undecided as x:
                c.undec(key, str(x))
        key = "memo/found"
        try:
            # a result that was stored is found again when nothing else was asked for in between
            for k in ((0, 0), (5, 3), (-4, 9), (1, -1), (2**31 - 1, 7)):
                e, mem = look(k, {})
                mem = put(put(mem, Ptr(e.base, e.off + HAS), 1), Ptr(e.base, e.off + VAL), 42)
                e, mem = look(k, mem)
                if get(mem, Ptr(e.base, e.off + HAS)) != 1 or get(mem, Ptr(e.base, e.off + VAL)) != 42:
                    raise Bad("the result for %s is not found again" % (k,))
            c.ok(key)
        except Bad as x:
            c.bad(key, SRC, "cmmcCacheLookup: %s" % x)
        except Undecided as x:
            c.undec(key, str(x))

    # ---------------------------------------------------------------- sum of an arithmetic progression modulo rem
    f = by.get("cmmcAddRec3SRem")
    if f:
        ns = [0, 1, 2, 3, 10, 46341, 46342, 65536, 92682, 2**30, 2**31 - 1, 2**31 - 2, 123456789]
        for rem in (1, 2, 3, 7, 10, 998244353, 1000000007, 2**31 - 1, 65536, -3, -7):
            key = "progression/%d" % rem
            try:
                for n in ns + ([rnd_n for rnd_n in range(4, 400)] if c.tier != "quick" else []):
                    t = Machine(f, args=[n, rem]).run()
                    if len(t) != 1 or sym(t[0].ret):
                        raise Undecided("cmmcAddRec3SRem(%d, %d)" % (n, rem))
                    s = n * (n - 1) // 2
                    want = s % abs(rem)
                    count["calls"] += 1
                    if I32(t[0].ret) != want:
                        raise Bad("0 + 1 + ... + %d modulo %d is %d, not %d" % (n - 1, rem, want, I32(t[0].ret)))
                c.ok(key)
            except Bad as x:
                c.bad(key, SRC, "cmmcAddRec3SRem: %s" % x)
            except Undecided as x:
                c.undec(key, str(x))

    # ---------------------------------------------------------------- reductions
    for name, isf in (("cmmcReduceAddI32", False), ("cmmcReduceAddF32", True)):
        f = by.get(name)
        if not f:
            continue
        key = "reduce/%s" % name
        X = Ptr(("obj", "acc"))
        V = ("the", "value")
        try:
            def cr(m, n, args, e):
                if len(m.events) > 12:
                    raise Stop("enough")
                if n == "atomic.cmpxchg":
                    ok = int(m.truth(("cas", len(m.events))))
                    return ("agg", args[1] if ok else ("seen", len(m.events)), ok)
                if n.startswith("atomic."):
                    return ("seen", len(m.events))
            for t in Machine(f, args=[X, V], call=cr, visits=10).run():
                count["traces"] += 1
                if t.end != "ret":
                    continue
                added = 0
                for n, args, r, loc in t.events:
                    if n == "store" and isinstance(args[0], Ptr) and args[0].base == X.base:
                        raise Bad("%s: the sum is written without regard to other threads" % loc)
                    if not n.startswith("atomic."):
                        continue
                    if word(args[0]) != X:
                        raise Bad("%s: updates something else than the sum" % loc)
                    if n == "atomic.cmpxchg":
                        if r[2]:
                            s = str(args[2])
                            old = str(args[1])
                            strip = lambda x: x[1] if isinstance(x, tuple) and not isinstance(x, Ptr) and str(x[0]).startswith("bitcast") else x
                            new = strip(args[2])
                            if not (isinstance(new, tuple) and new[0].split(":")[0] in ("fadd" if isf else "add",) and sorted(map(str, (strip(new[1]), strip(new[2])))) == sorted(map(str, (strip(args[1]), V)))):
                                raise Bad("%s: the sum is replaced with something else than the sum plus the value" % loc)
                            added += 1
                    elif n in ("atomic.add", "atomic.fadd"):
                        if args[1] != V:
                            raise Bad("%s: adds something else than the value" % loc)
                        added += 1
                    else:
                        raise Bad("%s: %s is no addition" % (loc, n))
                if added != 1:
                    raise Bad("the value is added %d times" % added)
            c.ok(key)
        except Bad as x:
            c.bad(key, SRC, "%s: %s" % (name, x))
        except Undecided as x:
            c.undec(key, str(x))
    count.pop("stack", None)
    c.cov.update(count)
    c.floor(30, "runtime rules")


main("C27", "other", "residual program of every runtime entry point; traces of the semaphore steps against the acquire/release protocol; the range handed out is the range asked for; a memoised result belongs to the arguments", body)
