"""The compiler's exit status tells whether compilation succeeded: every path of the driver, the parsers and the error reporters."""
from _common import *
from absint import Machine, Ptr, Undecided, Stop, sym, const_table

OPQ = ["^std::", "^__gnu", "^__cxa", "attach", "operator delete", "operator new", "^cmmc::Stage", "Opt::", "^cmmc::Flag::", "^std::endl", "Arena", "parser::parse"]
BADQ = ("fail", "operator!", "bad")
GOODQ = ("good", "operator bool")


def short(n):
    d, out = 0, ""
    for ch in n.replace("operator<<", "operator_shl").replace("operator->", "operator_arrow"):
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out


def load(mods, root, opq=OPQ):
    r = run_tool("spec", {"modules": mods, "root": root, "opaque": opq, "queries": [{"id": "x"}], "cfg": True, "globals": "."})
    out = {}
    for f in r["results"]:
        out.setdefault((f["name"], f.get("args")), f)
    return out, const_table(r.get("globals", {}))


FATAL = ("reportFatal", "reportUnreachable", "reportNotImplemented")


def body(c):
    stat = {"paths": 0, "functions": 0}

    def traces(f, tab, handler=None, args=None, mem=None, visits=3):
        def call(m, name, a, e):
            s = short(name)
            last = s.rsplit("::", 1)[-1]
            if last in FATAL or name in ("abort", "llvm.trap", "__clang_call_terminate") or s in ("std::terminate",):
                m.events.append((s, tuple(a), None, e.get("loc")))
                raise Stop("fatal")
            if name in ("exit", "_Exit", "quick_exit", "_exit", "std::exit", "std::quick_exit"):
                raise Stop("fatal" if not sym(a[0]) and a[0] & 255 else "exit 0" if not sym(a[0]) else "exit ?")
            if name in ("std::abort",):
                raise Stop("fatal")
            if s.startswith("std::__throw"):
                raise Stop("throws")
            return handler(m, s, last, a, e) if handler else None
        m = Machine(f, call=call, args=args if args is not None else tuple(Ptr(("arg", k)) for k in range(f.get("args") or 0)), mem0=mem or {}, table=tab, visits=visits, max_traces=4000)
        trs = m.run()
        stat["paths"] += len(trs)
        stat["functions"] += 1
        c.units.add("%s/%s" % (f["name"], f.get("args")))
        return trs

    def one(mods, root, what, opq=OPQ):
        fs, tab = load(mods, root, opq)
        if not fs:
            c.undec(what, "no function matches %s" % root)
        return fs, tab

    def decide(what, fn):
        try:
            fn()
        except Undecided as x:
            c.undec(what, str(x))

    # ---- 1. the error reporters never come back
    diag = bitcode(["Support/Diagnostics.cpp"])
    for n in FATAL:
        def rep(n=n):
            fs, tab = one(diag, r"^cmmc::(DiagnosticsContext::)?%s$" % n, n)
            for (nm, _), f in fs.items():
                trs = traces(f, tab, handler=lambda m, s, last, a, e: None)
                bad = [t for t in trs if t.end in ("ret", "exit 0", "exit ?")]
                c.expect(not bad and trs, "reporter:" + n, "cmmc/Support/Diagnostics.cpp", "%s can come back to its caller, or end the process with status 0" % n)
        # the reporter itself must not be treated as fatal while it is analysed: its body is the root
        decide("reporter:" + n, rep)

    # ---- 2. streams and outcomes in the driver
    drv = bitcode(["Driver/CMMCDriver.cpp"])

    def streams(tr):
        """what is left unsaid about the output streams when the process reports success"""
        live = {}
        for name, args, r, loc in tr.events:
            if name == "store":
                continue
            s = short(name)
            last = s.rsplit("::", 1)[-1]
            if last == "basic_ofstream" or last == "open" and "ofstream" in s:
                live[args[0]] = ["opened", loc]
                continue
            if last == "~basic_ofstream":
                continue
            if last in BADQ + GOODQ and args and any(same(args[0], p) for p in live):
                p = next(p for p in live if same(args[0], p))
                val = tr.assume_of(r)
                if val is None:
                    continue
                good = bool(val) == (last in GOODQ)
                if not good:
                    live[p] = ["failed", loc]
                elif live[p][0] == "flushed":
                    live[p] = ["verified", loc]
                continue
            for p in list(live):
                if not any(same(a, p) for a in args):
                    continue
                if (last in ("close", "flush") or last == "operator_shl" and any(isinstance(a, Ptr) and isinstance(a.base, str) and re.search("flush|endl", a.base) for a in args)) and live[p][0] != "failed":
                    live[p] = ["flushed", loc]
                elif last in ("is_open", "rdstate", "tellp", "name", "rdbuf"):
                    pass
                elif live[p][0] != "failed":
                    live[p] = ["written", loc]
        return live

    def same(a, p):
        # the ios part of a stream lies inside it: any pointer into the object, or derived from it
        if isinstance(a, Ptr):
            return a.base == p.base or isinstance(a.base, tuple) and a.base[0] != "alloca" and inside(a.base, p)
        return sym(a) and inside(a, p)

    def inside(t, p):
        if isinstance(t, Ptr):
            return same(t, p)
        return isinstance(t, tuple) and any(inside(x, p) for x in t[1:] if isinstance(x, tuple))

    def attach_assume(tr):
        def val(r):
            if not sym(r):
                return r
            if r in tr.assume:
                return tr.assume[r]
            for k, v in tr.assume.items():
                if k == ("icmp-eq", r, 0):
                    return not v
                if k == ("icmp-eq", r, 1):
                    return v
            return None
        tr.assume_of = val
        return tr

    def vbase(m, s, last, a, e):
        return None

    def pipeline():
        fs, tab = one(drv, r"^runIRPipeline$", "runIRPipeline")
        for (nm, _), f in fs.items():
            trs = [attach_assume(t) for t in traces(f, tab, handler=quiet)]
            succ = [t for t in trs if t.end == "ret" and success(t)]
            kinds = {}
            for t in succ:
                for p, (st, loc) in streams(t).items():
                    kinds.setdefault((loc_of(t, p), st), loc)
            for (where, st), loc in sorted(kinds.items(), key=str):
                c.expect(st == "verified", "output:%s:%s" % (where[0], st), where[1],
                         "the compiler reports success although the output stream opened here was %s, and not seen to be intact after its last write" % st)
            # a module that is not well-formed does not end in success
            bad = None
            nver = 0
            for t in trs:
                for name, a, r, loc in t.events:
                    if name != "store" and short(name).endswith("Module::verify"):
                        nver += 1
                        if t.assume_of(r) in (False, 0) and t.end == "ret" and success(t):
                            bad = loc
                        if t.assume_of(r) is None and t.end == "ret" and success(t):
                            bad = loc
            c.expect(not bad and nver, "verified-module", bad or "cmmc/Driver/CMMCDriver.cpp", "code found ill-formed by the verifier is compiled on, and success reported")

    def loc_of(tr, p):
        for name, args, r, loc in tr.events:
            if name != "store" and args and isinstance(args[0], Ptr) and args[0].base == p.base and "basic_ofstream" in short(name):
                return (str(p.base), loc)
        return (str(p.base), "cmmc/Driver/CMMCDriver.cpp")

    def success(t):
        """can this path report success of its own accord (not handing on another function's status)"""
        r = t.ret
        if not sym(r):
            return r == 0
        return False

    def quiet(m, s, last, a, e):
        if s.endswith(("reportDebug", "reportInfo", "reportWarning", "reportError")):
            return Ptr(("stream", "log"))
        if s.startswith("std::operator_shl") or last in ("operator_shl",):
            # text on the logs changes nothing here
            if a and isinstance(a[0], Ptr) and a[0].base == ("stream", "log"):
                return a[0]
        if last == "endl" and a and isinstance(a[0], Ptr) and a[0].base == ("stream", "log"):
            return a[0]
        return None

    decide("runIRPipeline", pipeline)

    INFO = ("printHelpInfo", "printOptPipeline", "reportInfo")

    def entry():
        fs, tab = one(drv, r"^mainImpl$", "mainImpl", OPQ + ["^runIRPipeline$", "^cmmc::loadTAC$"])
        for (nm, _), f in fs.items():
            trs = [attach_assume(t) for t in traces(f, tab, handler=logless)]
            seen = {"output": None, "silent": None, "complaint": None, "handed": 0}
            good = 0
            for t in trs:
                if t.end == "exit 0" or t.end == "exit ?":
                    seen["silent"] = "cmmc/Driver/CMMCDriver.cpp"
                if t.end != "ret":
                    continue
                names = [(short(e[0]), e) for e in t.events if e[0] != "store"]
                status = [e for n, e in names if n.endswith("runIRPipeline")]
                if status:
                    if t.ret == status[-1][2] or not sym(t.ret) and t.ret != 0:
                        seen["handed"] += 1
                    else:
                        c.expect(False, "status-of-pipeline", status[-1][3], "what the pipeline reports is not what the compiler reports")
                    if not any(n.endswith(("Driver::emit", "loadTAC")) for n, e in names):
                        c.expect(False, "pipeline-input", status[-1][3], "the pipeline runs without a program")
                    continue
                if sym(t.ret):
                    raise Undecided("the status %s is not understood" % (t.ret,))
                if t.ret == 0:
                    good += 1
                    if any(n.endswith("reportError") for n, e in names):
                        seen["complaint"] = next(e[3] for n, e in names if n.endswith("reportError"))
                    st = streams(t)
                    for p, (state, loc) in st.items():
                        if state != "verified":
                            seen["output"] = (state, loc_of(t, p)[1])
                    if not st and not any(n.endswith(INFO) for n, e in names):
                        flag = any(n.endswith("Flag::get") and e[1] and "grammarCheck" in str(e[1][0]) and t.assume_of(e[2]) for n, e in names) or flagged(t)
                        if not flag or not any(n.endswith("Driver::Driver") for n, e in names):
                            seen["silent"] = names[-1][1][3] if names else "cmmc/Driver/CMMCDriver.cpp"
            c.expect(good and seen["handed"], "paths:mainImpl", "cmmc/Driver/CMMCDriver.cpp", "no path of the entry point reports success")
            c.expect(not seen["output"], "output:mainImpl", seen["output"] and seen["output"][1], "success is reported although the output stream was %s, and not seen to be intact after its last write" % (seen["output"] and seen["output"][0]))
            c.expect(not seen["silent"], "silent:mainImpl", seen["silent"], "success is reported although nothing was compiled, printed or written")
            c.expect(not seen["complaint"], "complaint:mainImpl", seen["complaint"], "an error is reported, and then success")

    def flagged(t):
        return any("grammarCheck" in str(k) and v for k, v in t.assume.items()) or any(k[0] == "icmp-eq" and "grammarCheck" in str(k) and not v for k, v in t.assume.items())

    def logless(m, s, last, a, e):
        if s.endswith("reportDebug") or s.endswith("reportWarning"):
            return Ptr(("stream", "log"))
        return None
    decide("mainImpl", entry)

    def top():
        fs, tab = one(drv, r"^main$", "main", OPQ + ["^mainImpl$"])
        for (nm, _), f in fs.items():
            trs = traces(f, tab)
            bad = [t for t in trs if t.end == "exit 0" or t.end == "exit ?" or t.end == "ret" and t.ret not in [e[2] for e in t.events if short(e[0]).endswith("mainImpl")]
                   and (sym(t.ret) or t.ret == 0) and not t.assume.get(("icmp-eq", next((e[2] for e in t.events if short(e[0]).endswith("mainImpl")), None), 0))]
            c.expect(trs and not bad, "status:main", "cmmc/Driver/CMMCDriver.cpp", "the status of the process is not the status of the compilation")
    decide("main", top)

    def truth(v):
        return None if sym(v) else bool(v)

    # ---- 3. parsing
    par = bitcode(["Frontend/Driver.cpp"])

    def parse():
        fs, tab = one(par, r"^cmmc::Driver::parse$", "Driver::parse")
        for (nm, _), f in fs.items():
            trs = [attach_assume(t) for t in traces(f, tab)]
            rets = [t for t in trs if t.end in ("ret", "exit 0", "exit ?")]
            bad = None
            for t in rets:
                ps = [e for e in t.events if e[0] == "indirect" or short(e[0]).endswith(("parseSpl", "parseSysY"))]
                cs = [e for e in t.events if short(e[0]).endswith("DriverImpl::complete")]
                if t.end != "ret":
                    bad = "cmmc/Frontend/Driver.cpp"
                for what in (ps, cs):
                    if not what or any(not t.assume_of(e[2]) for e in what):
                        bad = what[0][3] if what else "cmmc/Frontend/Driver.cpp"
            c.expect(rets and not bad, "parse-failure", bad, "a source that was not parsed completely is compiled on")
    decide("Driver::parse", parse)

    for name, file in (("parseSpl", "Frontend/Support/SplSupport.cpp"), ("parseSysY", "Frontend/Support/SysYSupport.cpp")):
        def pp(name=name, file=file):
            b = bitcode([file])
            fs, tab = one(b, r"^cmmc::%s$" % name, name)
            for (nm, _), f in fs.items():
                def h(m, s, last, a, e):
                    if s == "fopen":
                        return Ptr(("heap", "file")) if m.truth(("opened",)) else 0
                    if s.endswith("parser::parse"):
                        return 0 if m.truth(("accepted",)) else 1
                trs = traces(f, tab, handler=h)
                bad = next((t for t in trs if t.end in ("exit 0", "exit ?") or t.end == "ret" and not t.assume.get(("opened",))), None)
                c.expect(trs and not bad, "unreadable:" + name, "cmmc/" + file, "a source file that cannot be opened is taken for parsed")
                bad = next((t for t in trs if t.end == "ret" and t.assume.get(("opened",)) and t.assume.get(("accepted",)) is not True and truth(t.ret) is not False), None)
                c.expect(not bad, "rejected:" + name, "cmmc/" + file, "a source the parser rejects is taken for parsed")
                n = sum(1 for t in trs if t.end == "ret" and truth(t.ret))
                c.expect(n, "accepted:" + name, "cmmc/" + file, "a source the parser accepts is never taken for parsed")
        decide(name, pp)

    impl = bitcode(["Frontend/DriverImpl.cpp"])

    def flags():
        offs = {}
        for n in ("reportLexerError", "reportParserError", "markEnd"):
            fs, tab = one(impl, r"^cmmc::DriverImpl::%s$" % n, n)
            for (nm, _), f in fs.items():
                this = Ptr(("arg", 0))
                trs = [t for t in traces(f, tab, handler=text, visits=4) if t.end == "ret"]
                sets = [{(e[1][0].off, e[1][1]) for e in t.events if e[0] == "store" and isinstance(e[1][0], Ptr) and e[1][0].base == this.base and not sym(e[1][1])} for t in trs]
                common = set.intersection(*sets) if sets else set()
                common = {o for o, v in common if v == 1}
                offs[n] = common
                c.expect(common, "recorded:" + n, "cmmc/Frontend/DriverImpl.cpp", "%s comes back on some path without recording what happened" % n)
        err = offs["reportLexerError"] & offs["reportParserError"]
        c.expect(err, "recorded:same", "cmmc/Frontend/DriverImpl.cpp", "lexical and syntax errors are not recorded in the same place")
        fs, tab = load(impl, r"^cmmc::DriverImpl::", OPQ + ["cmmc::Module", "cmmc::Hierarchy", "EmitContext", "emit"])
        for (nm, _), f in sorted(fs.items(), key=str):
            if nm.endswith(("::DriverImpl", "::~DriverImpl")) or "(" in nm:
                continue
            for k in f["blocks"]:
                for ev in k["ev"]:
                    if "st" in ev and any(ev["st"] == ("(gep %d arg0)" % o if o else "arg0") for o in err) and ev["size"] == 1:
                        c.expect(ev["val"] in ("1", "true"), "kept:" + nm, ev.get("loc"), "a recorded error is forgotten again")
        fs, tab = one(impl, r"^cmmc::DriverImpl::complete$", "complete")
        for (nm, _), f in fs.items():
            for e in (0, 1):
                for d in (0, 1):
                    def ld(m, p, size, ty):
                        if isinstance(p, Ptr) and p.base == ("arg", 0):
                            return e if p.off in err else d if p.off in offs["markEnd"] else None
                    m = Machine(f, args=(Ptr(("arg", 0)),), load=ld, table=tab, visits=3, max_traces=50)
                    for t in m.run():
                        want = int(d == 1 and e == 0)
                        c.expect(t.end == "ret" and not sym(t.ret) and int(t.ret) == want, "complete:error=%d,end=%d" % (e, d), "cmmc/Frontend/DriverImpl.cpp",
                                 "a parse %s an error and %s its end counts as %s" % (("without", "with")[e], ("not at", "at")[d], ("complete", "incomplete")[want]))

    def text(m, s, last, a, e):
        return None
    decide("flags", flags)

    def emit():
        fs, tab = one(impl, r"^cmmc::DriverImpl::emit$", "DriverImpl::emit", ["^std::", "^cmmc::[^D]", "attach", "emitSplRuntime", "emitSysYRuntime", "operator", "dynamic_cast"])
        hit = 0
        for (nm, _), f in fs.items():
            hdr = open(REPO + "/cmmc/Frontend/EmitIR.hpp").read()
            trs = [attach_assume(t) for t in traces(f, tab, visits=2)]
            for t in trs:
                for e in t.events:
                    if short(e[0]).endswith("EmitContext::invalid"):
                        hit += 1
                        v = t.assume_of(e[2])
                        c.expect(v is not None and not (v and t.end in ("ret", "exit 0", "exit ?")), "semantic-error", e[3], "a program with semantic errors is compiled on")
        c.expect(hit, "semantic-errors-asked", "cmmc/Frontend/DriverImpl.cpp", "nobody asks whether the program had semantic errors")
    decide("emit", emit)

    def semantic():
        fs, tab = load(impl, r"^cmmc::EmitContext::invalid$")
        offs = set()
        for (nm, _), f in fs.items():
            m = Machine(f, args=(Ptr(("arg", 0)),), load=lambda m, p, size, ty: offs.add(p.off) if isinstance(p, Ptr) and p.base == ("arg", 0) else None, table=tab)
            m.run()
        e = bitcode(["Frontend/EmitIR.cpp"])
        n = 0
        fs, tab = load(e, r"reportSplError<", ["^std::", "EmitContext::get", "getInvalidRValue", "isInvalid", "isVoid", "operator"])
        for (nm, k), f in fs.items():
            if "lambda" in nm and "operator()" in nm:
                continue
            n += 1
            trs = [t for t in traces(f, tab) if t.end == "ret"]
            bad = not offs or any(not any(x[0] == "store" and isinstance(x[1][0], Ptr) and x[1][0].base == ("arg", 0) and x[1][0].off in offs and x[1][1] == 1 for x in t.events) for t in trs)
            c.expect(trs and not bad, "semantic:" + nm[:80], "cmmc/Frontend/EmitIR.cpp", "a semantic error is printed, but the program is not marked as wrong, and is compiled on")
        c.expect(n > 3, "semantic", "cmmc/Frontend/EmitIR.cpp", "no semantic error is ever reported")
    decide("semantic", semantic)

    # ---- 4. error productions and tokens
    import grammar

    def macros():
        out = {}
        for f in ("Frontend/FrontendSupport.hpp", "Frontend/ParserSpl.yy", "Frontend/ParserSysY.yy", "Frontend/ScannerSpl.ll", "Frontend/ScannerSysY.ll"):
            s = re.sub(r"\\\n", " ", open(REPO + "/cmmc/" + f).read())
            for m in re.finditer(r"^[ \t]*#[ \t]*define[ \t]+(\w+)(?:\([^)]*\))?(.*)$", s, flags=re.M):
                out.setdefault(m.group(1), m.group(2))
        return out
    mac = macros()

    def reports(text_, what, depth=0):
        text_ = re.sub(r"//[^\n]*|/\*.*?\*/", "", text_, flags=re.S)
        if re.search(r"\bdriver\s*\.\s*(%s)\s*\(" % what, text_):
            return True
        return depth < 5 and any(w in mac and reports(mac[w], what, depth + 1) for w in set(re.findall(r"\b[A-Z][A-Z_0-9]+\b", text_)))

    def productions():
        n = 0
        for lang in ("Spl", "SysY"):
            for lhs, rhs, act in grammar.actions(REPO + "/cmmc/Frontend/Parser%s.yy" % lang):
                if "error" not in rhs:
                    continue
                n += 1
                c.expect(reports(act, "reportParserError|reportLexerError") or "ERR" in rhs, "production:%s:%s:%s" % (lang, lhs, " ".join(rhs)), "cmmc/Frontend/Parser%s.yy (%s: %s)" % (lang, lhs, " ".join(rhs)),
                         "the parser recovers from a syntax error here without recording it, so that a wrong program counts as parsed")
                if "ERR" in rhs:
                    continue
        return n
    productions()

    def scanners():
        for lang in ("Spl", "SysY"):
            s = open(REPO + "/cmmc/Frontend/Scanner%s.ll" % lang).read()
            s = re.sub(r"^[ \t]*#[^\n]*", "", s, flags=re.M)
            bare = [m for m in re.finditer(r"(CMMC_TERMINAL\s*\(\s*ERR\s*\)|make_ERR\s*\()", s)]
            c.expect(not bare, "token:%s" % lang, "cmmc/Frontend/Scanner%s.ll" % lang, "the error token is handed to the parser without recording the error")
        c.expect("CMMC_LEXER_ERROR" not in mac or reports(mac["CMMC_LEXER_ERROR"], "reportLexerError"), "token:macro", "cmmc/Frontend/FrontendSupport.hpp", "unknown lexemes are not recorded as errors")
    scanners()

    # ---- 5. the files of the interpreter
    ip = bitcode(["ExecutionEngine/Interpreter.cpp"])

    def files(n):
        fs, tab = one(ip, r"^cmmc::%s::%s$" % (n, n), n)
        for (nm, _), f in fs.items():
            def h(m, s, last, a, e):
                if s == "fopen":
                    return Ptr(("heap", "file")) if m.truth(("opened",)) else 0
            trs = traces(f, tab, handler=h)
            bad = [t for t in trs if t.end != "fatal" and not t.assume.get(("opened",))]
            c.expect(trs and not bad, "open:" + n, "cmmc/ExecutionEngine/Interpreter.cpp", "a file that cannot be opened is simulated with")
    for n in ("OutputStream", "InputStream"):
        decide(n, lambda n=n: files(n))

    def closing():
        fs, tab = one(ip, r"^cmmc::OutputStream::~OutputStream$", "~OutputStream")
        for (nm, _), f in fs.items():
            for worked, closed in ((1, 0), (0, 1), (1, 1)):
                def h(m, s, last, a, e):
                    if s == "ferror":
                        return 1 if worked == 0 else 0
                    if s in ("fclose", "fflush"):
                        return 0 if closed else -1 & 0xffffffff
                trs = traces(f, tab, handler=h)
                rets = [t for t in trs if t.end == "ret"]
                if worked and closed:
                    c.expect(rets, "close:fine", "cmmc/ExecutionEngine/Interpreter.cpp", "a simulation that wrote its output is reported as failed")
                else:
                    c.expect(trs and not rets, "close:%d%d" % (worked, closed), "cmmc/ExecutionEngine/Interpreter.cpp", "the output of a simulation is lost, and nobody is told")
    decide("~OutputStream", closing)

    # ---- 6. reading three-address code
    def tac():
        b = bitcode(["Conversion/TAC.cpp"])
        fs, tab = one(b, r"^cmmc::loadTAC$", "loadTAC", [".*"])
        for (nm, _), f in fs.items():
            ok = None
            for k in f["blocks"]:
                pass
            st = {}

            def h(m, s, last, a, e):
                if last == "basic_ifstream":
                    st["in"] = a[0]
                if last in ("is_open", "good", "fail", "operator!", "operator_bool"):
                    return int(m.truth(("open", last)))
                if last == "readTACSeq" or s.endswith("readTACSeq"):
                    raise Stop("reads")
            for t in traces(f, tab, handler=h):
                for k, v in t.assume.items():
                    if k[0] == "open":
                        good = v == (k[1] not in ("fail", "operator!"))
                        ok = ok or not good and t.end == "fatal"
                        if t.end == "reads" and not good:
                            ok = False
            c.expect(ok, "open:loadTAC", "cmmc/Conversion/TAC.cpp", "a file of three-address code that cannot be opened is compiled")
    decide("loadTAC", tac)
    c.cov.update(stat)
    c.floor(40, "paths and productions")


main("C05", "other", "on every path that reports success the program was parsed completely and verified, the output was flushed and seen intact after its last write; error reporters never come back; error productions record the error", body)
