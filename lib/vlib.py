"""Shared driver of the static checks: builds the analyser, lowers /repo's current sources
to LLVM bitcode, runs queries, reports violations, writes evidence."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CMMC_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CXX = "clang++-18"
LLVM_FLAGS = ["-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
              "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-w"]
JOBS = os.cpu_count() or 4


class Broken(Exception):
    """the analysis itself cannot run (vanished anchor, build failure): exit 2"""


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise Broken("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd)[:400], p.stderr[-3000:]))
    return p.stdout


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.p = os.path.join(CACHE, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_tool():
    srcs = sorted(glob.glob(os.path.join(VERIF, "tool", "*.cpp")))
    hdrs = sorted(glob.glob(os.path.join(VERIF, "tool", "*.hpp")))
    key = _h(*[_read(f) for f in srcs + hdrs])
    out = os.path.join(CACHE, "tool-" + key)
    with Lock("tool"):
        exe = os.path.join(out, "irtool")
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(CACHE, "tool-*")):
            if os.path.isdir(old) and old != out:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        hkey = _h(*[_read(f) for f in hdrs])

        def one(s):
            o = os.path.join(out, os.path.basename(s) + ".o")
            sh([CXX] + LLVM_FLAGS + ["-c", s, "-o", o])
            return o
        with cf.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, srcs))
        sh([CXX] + objs + ["-o", exe + ".tmp", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.rename(exe + ".tmp", exe)
    return exe


TARGETS = ["Generic", "TAC", "RISCV", "MIPS", "ARM"]


def _gen_inputs():
    r = []
    for f in ("Spl", "SysY"):
        r += ["%s/cmmc/Frontend/Scanner%s.ll" % (REPO, f), "%s/cmmc/Frontend/Parser%s.yy" % (REPO, f)]
    r += sorted(glob.glob(REPO + "/cmmc/Target/Template/*"))
    for t in TARGETS:
        r.append("%s/cmmc/Target/%s/%s.yml" % (REPO, t, t))
    return [x for x in r if os.path.isfile(x)]


def gen_headers():
    """the headers cmake would generate: scanners, parsers, instruction tables"""
    key = _h(*[_read(f) for f in _gen_inputs()])
    out = os.path.join(CACHE, "gen-" + key)
    with Lock("gen"):
        if os.path.exists(out + "/done"):
            return out
        for old in glob.glob(os.path.join(CACHE, "gen-*")):
            shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        cmds = []
        for f in ("Spl", "SysY"):
            os.makedirs(out + "/" + f)
            cmds.append(["flex", "-P", f, "--header-file=%s/%s/ScannerDecl.hpp" % (out, f), "-o",
                         "%s/%s/ScannerImpl.hpp" % (out, f), "%s/cmmc/Frontend/Scanner%s.ll" % (REPO, f)])
            cmds.append(["bison", "--language=c++", "--xml=%s/%s/grammar.xml" % (out, f),
                         "--defines=%s/%s/ParserDecl.hpp" % (out, f), "-o", "%s/%s/ParserImpl.hpp" % (out, f),
                         "%s/cmmc/Frontend/Parser%s.yy" % (REPO, f)])
        for t in TARGETS:
            os.makedirs("%s/%s" % (out, t), exist_ok=True)
            cmds.append([sys.executable, "-B", REPO + "/cmmc/Target/Template/generate.py",
                         "%s/cmmc/Target/%s/%s.yml" % (REPO, t, t), "%s/%s" % (out, t)])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(sh, cmds))
        for t in ("RISCV", "ARM"):
            p = "%s/%s/SysYRuntime.hpp" % (out, t)
            if not os.path.exists(p):
                with open(p, "w") as f:
                    f.write('R"()"\n')
        open(out + "/done", "w").close()
    return out


_hdr_hash = None


def _headers_hash():
    global _hdr_hash
    if _hdr_hash is None:
        fs = []
        for d, _, names in os.walk(REPO + "/cmmc"):
            if "mimalloc" in d:
                continue
            for n in names:
                if n.endswith((".hpp", ".h", ".inc")):
                    fs.append(os.path.join(d, n))
        _hdr_hash = _h(*[f.encode() + _read(f) for f in sorted(fs)])
    return _hdr_hash


def compile_flags(gen, extra=()):
    return ["-std=c++17", "-DCMMC_ENABLE_DETERMINISTIC", "-DNDEBUG", "-I" + gen, "-I" + REPO,
            "-I" + REPO + "/cmmc/Support/mimalloc/include", "-w"] + list(extra)


def bitcode(files, gen=None, opt=("-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only")):
    """files: paths relative to /repo/cmmc (or absolute); returns bitcode paths in order"""
    gen = gen or gen_headers()
    out = os.path.join(CACHE, "bc")
    os.makedirs(out, exist_ok=True)
    hh = _headers_hash()

    def one(f):
        src = f if os.path.isabs(f) else os.path.join(REPO, "cmmc", f)
        if not os.path.isfile(src):
            raise Broken("source file vanished: " + src)
        text = _read(src)
        # a harness may include a source file, whose text the headers' hash does not cover
        inc = [_read(f.decode()) for f in re.findall(rb'^#include "(/[^"]+\.cpp)"', text, re.M) if os.path.exists(f.decode())]
        key = _h(hh, gen, src, text, *inc, " ".join(opt))
        o = os.path.join(out, key + ".bc")
        if not os.path.exists(o):
            sh([CXX] + compile_flags(gen) + list(opt) + ["-emit-llvm", "-c", src, "-o", o + ".tmp%d" % os.getpid()])
            os.rename(o + ".tmp%d" % os.getpid(), o)
        os.utime(o)
        return o
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, files))
    # bound the cache
    allf = sorted(glob.glob(out + "/*.bc"), key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in allf)
    for f in allf:
        if tot < 1_500_000_000:
            break
        if f not in res:
            tot -= os.path.getsize(f)
            os.unlink(f)
    return res


def all_sources(sub=""):
    res = []
    for d, _, names in os.walk(os.path.join(REPO, "cmmc", sub)):
        if "mimalloc" in d or "/Runtime" in d:
            continue
        for n in names:
            if n.endswith(".cpp"):
                p = os.path.relpath(os.path.join(d, n), REPO + "/cmmc")
                if "LLVM" in p or "cmmc_sysy_rt" in p or "SysYRuntime" in p:
                    continue
                res.append(p)
    return sorted(res)


def enum_values(header, enum, cls="cmmc::"):
    """enumerator -> value of a scoped enum, as the compiler sees it"""
    gen = gen_headers()
    key = _h(_headers_hash(), gen, header, enum)
    cfile = os.path.join(CACHE, "enum-" + key + ".json")
    if os.path.exists(cfile):
        return json.load(open(cfile))
    tmp = os.path.join(CACHE, "enum-%s-%d.cpp" % (key, os.getpid()))
    try:
        with open(tmp, "w") as f:
            f.write("#include <%s>\n" % header)
        txt = sh([CXX] + compile_flags(gen) + ["-fsyntax-only", "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=" + enum, tmp])
        names = []
        on = False
        for line in txt.splitlines():
            line = re.sub(r"\x1b\[[0-9;]*m", "", line)
            m = re.search(r"EnumDecl .* class (?:cmmc::)?(\w+)\b", line)
            if line.startswith("EnumDecl"):
                on = bool(re.search(r"\b%s\b" % enum.split("::")[-1], line))
            m = re.search(r"EnumConstantDecl 0x[0-9a-f]+ .*? (?:referenced )?(\w+) '", line)
            if m and on and m.group(1) not in names:
                names.append(m.group(1))
        if not names:
            raise Broken("enum %s not found in %s" % (enum, header))
        with open(tmp, "w") as f:
            f.write("#include <%s>\n" % header)
            for n in names:
                f.write('extern "C" { extern const long V_%s; const long V_%s = static_cast<long>(%s%s::%s); }\n' % (n, n, cls, enum, n))
        ll = sh([CXX] + compile_flags(gen) + ["-S", "-emit-llvm", "-o", "-", tmp])
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)
    vals = {}
    for m in re.finditer(r"^@V_(\w+) = .*constant i64 (-?\d+)", ll, re.M):
        vals[m.group(1)] = int(m.group(2))
    if set(vals) != set(names):
        raise Broken("enum %s: values not resolved" % enum)
    with open(cfile + ".tmp", "w") as f:
        json.dump(vals, f)
    os.rename(cfile + ".tmp", cfile)
    return vals


def const_values(header, scope, names, pre=""):
    """values of unscoped constants of a namespace, as the compiler sees them"""
    gen = gen_headers()
    key = _h(_headers_hash(), gen, header, scope, pre, " ".join(names))
    cfile = os.path.join(CACHE, "const-" + key + ".json")
    if os.path.exists(cfile):
        return json.load(open(cfile))
    tmp = os.path.join(CACHE, "const-%s-%d.cpp" % (key, os.getpid()))
    try:
        with open(tmp, "w") as f:
            f.write("%s#include <%s>\n" % (pre, header))
            for n in names:
                f.write('extern "C" { extern const long V_%s; const long V_%s = static_cast<long>(%s%s); }\n' % (n, n, scope, n))
        ll = sh([CXX] + compile_flags(gen) + ["-S", "-emit-llvm", "-o", "-", tmp])
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)
    vals = {}
    for m in re.finditer(r"^@V_(\w+) = .*constant i64 (-?\d+)", ll, re.M):
        vals[m.group(1)] = int(m.group(2))
    if set(vals) != set(names):
        raise Broken("constants of %s not resolved" % scope)
    with open(cfile + ".tmp", "w") as f:
        json.dump(vals, f)
    os.rename(cfile + ".tmp", cfile)
    return vals


def harness(name, text):
    """a translation unit that instantiates or wraps inline code of /repo's headers; None when the
    headers no longer offer what it names (the caller counts its obligations as undecided)"""
    p = os.path.join(CACHE, "h-%s-%s.cpp" % (name, _h(text)))
    if not os.path.exists(p):
        os.makedirs(CACHE, exist_ok=True)
        with open(p + ".%d" % os.getpid(), "w") as f:
            f.write(text)
        os.rename(p + ".%d" % os.getpid(), p)
    try:
        return bitcode([p])[0]
    except Broken:
        return None


def run_tool(cmd, spec, tool=None):
    tool = tool or build_tool()
    p = os.path.join(CACHE, "spec-%d-%d.json" % (os.getpid(), id(spec)))
    with open(p, "w") as f:
        json.dump(spec, f)
    try:
        r = subprocess.run([tool, cmd, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    finally:
        os.unlink(p)
    if r.returncode != 0:
        raise Broken("analyser failed on %s: %s" % (spec.get("root"), r.stderr[-2000:]))
    return json.loads(r.stdout)


class Check:
    def __init__(self, prop, level, rule):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.viol = []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.units = set()

    # an obligation: one rule instance, judged
    def ok(self, what=None):
        self.obligations += 1
        self.discharged += 1
        if what is not None and len(self.samples) < 12:
            self.samples.append(what)

    def undec(self, key, why):
        self.obligations += 1
        self.undecided.append({"instance": key, "why": why})

    def bad(self, key, where, msg):
        self.obligations += 1
        self.viol.append({"key": key, "where": where, "msg": msg})

    def expect(self, cond, key, where, msg, sample=None):
        if cond:
            self.ok(sample)
        else:
            self.bad(key, where, msg)

    def floor(self, n, what):
        """fail as broken (not as a violation) when fewer instances were seen than confirmed by hand"""
        if self.obligations < n:
            raise Broken("only %d instances of %s were analysed (at least %d expected)" % (self.obligations, what, n))

    def finish(self):
        known = {}
        kf = os.path.join(VERIF, "known-findings.json")
        if os.path.exists(kf):
            for e in json.load(open(kf)):
                if e["property"] == self.prop and e.get("status") == "known":
                    known[e["key"]] = e["what"]
        fresh, seen = [], []
        for v in self.viol:
            (seen if v["key"] in known else fresh).append(v)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        cov = {
            "obligations": self.obligations, "discharged": self.discharged, "undecided": len(self.undecided),
            "rule": self.rule, "samples": self.samples, "translation_units": sorted(self.units),
            "explanation": self.rule,
            "checker_cmd": "python3 checks/%s.py" % self.prop,
            "trusted_base": ["clang 18 front end and LLVM 18 simplification passes", "the rule tables in checks/%s.py" % self.prop],
        }
        if self.undecided:
            cov["undecided_instances"] = self.undecided[:40]
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh), "assumptions": self.assumptions}
        if seen:
            ev["known_findings"] = seen
        tmp = "%s/evidence/%s.json.tmp%d" % (VERIF, self.prop, os.getpid())
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, "%s/evidence/%s.json" % (VERIF, self.prop))
        for v in seen:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, v["key"], known[v["key"]]))
        print("%s: %d obligations, %d discharged, %d undecided, %d new violations, %d known (%.1fs)" %
              (self.prop, self.obligations, self.discharged, len(self.undecided), len(fresh), len(seen), time.time() - self.t0))
        if fresh:
            rp = "%s/evidence/%s.replay.json" % (VERIF, self.prop)
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "violations": fresh,
                           "reproduce": "cd %s && python3 checks/%s.py" % (VERIF, self.prop)}, f, indent=1)
            for v in fresh[:20]:
                print("  %s [%s] %s" % (v["where"], v["key"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def main(prop, level, rule, body):
    c = Check(prop, level, rule)
    try:
        body(c)
        rc = c.finish()
    except Broken as e:
        print("%s: analysis broken: %s" % (prop, e))
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
