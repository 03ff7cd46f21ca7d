"""the parsers bison builds and the rules flex matches, read from their sources and reports

The automaton is bison's own report (conflicts resolved); what a reduction builds is read from the rule's action
after the preprocessor has expanded the project's macros in it.  Nothing of the compiler is run.
"""
import os
import re
import subprocess
import xml.etree.ElementTree as ET
import vlib
from vlib import Broken, REPO


class Unknown(Exception):
    pass


# ---------------------------------------------------------------- the automaton
class Automaton:
    def __init__(self, xml):
        root = ET.parse(xml).getroot()
        self.rules = []
        for r in root.find("grammar/rules"):
            lhs = r.find("lhs").text
            rhs = [s.text for s in r.find("rhs") if s.tag == "symbol"]
            assert int(r.get("number")) == len(self.rules)
            self.rules.append((lhs, rhs))
        alias = {}
        for t in root.find("grammar/terminals"):
            alias[t.get("name")] = t.get("name")
        self.terminals = set(alias)
        self.action, self.default, self.goto = [], [], []
        for st in root.find("automaton"):
            acts, dflt, go = {}, None, {}
            for t in st.find("actions/transitions"):
                if t.get("type") == "shift":
                    acts[t.get("symbol")] = ("s", int(t.get("state")))
                else:
                    go[t.get("symbol")] = int(t.get("state"))
            for e in st.find("actions/errors"):
                acts[e.get("symbol")] = ("e",)
            for r in st.find("actions/reductions"):
                if r.get("enabled") != "true":
                    continue
                a = ("a",) if r.get("rule") == "accept" else ("r", int(r.get("rule")))
                if r.get("symbol") == "$default":
                    dflt = a
                else:
                    acts.setdefault(r.get("symbol"), a)
            self.action.append(acts)
            self.default.append(dflt)
            self.goto.append(go)

    def parse(self, tokens, reduce, limit=100000):
        """tokens: (name, value); reduce(rule, values) -> value.  None if the input is rejected."""
        states, vals = [0], []
        i = 0
        while limit:
            limit -= 1
            name, v = tokens[i]
            a = self.action[states[-1]].get(name) or self.default[states[-1]]
            if a is None or a[0] == "e":
                return None
            if a[0] == "a":
                return vals
            if a[0] == "s":
                states.append(a[1])
                vals.append(v)
                i += 1
                if i >= len(tokens):
                    return vals
            else:
                lhs, rhs = self.rules[a[1]]
                n = len(rhs)
                args = vals[len(vals) - n:]
                if n:
                    del states[-n:], vals[-n:]
                vals.append(reduce(a[1], args))
                states.append(self.goto[states[-1]][lhs])
        raise Broken("the parser did not end")


# ---------------------------------------------------------------- the grammar file
def _skip(s, i):
    """past a string, character literal or comment starting at i, or i"""
    if s[i] == '"' or s[i] == "'":
        q = s[i]
        j = i + 1
        while s[j] != q:
            j += 2 if s[j] == "\\" else 1
        return j + 1
    if s.startswith("//", i):
        return s.find("\n", i)
    if s.startswith("/*", i):
        return s.index("*/", i) + 2
    return i


def block(s, i):
    """the end of the brace block opening at i"""
    d = 0
    while True:
        j = _skip(s, i)
        if j != i:
            i = j
            continue
        if s[i] == "{":
            d += 1
        elif s[i] == "}":
            d -= 1
            if d == 0:
                return i + 1
        i += 1


def actions(path):
    """(lhs, [symbols], action text) of every rule, in order"""
    s = open(path).read()
    parts = re.split(r"^%%[ \t]*$", s, flags=re.M)
    s = parts[1]
    out = []
    i, lhs, rhs, act = 0, None, [], ""
    prec = False

    def flush():
        if lhs is not None:
            out.append((lhs, list(rhs), act))
    while i < len(s):
        ch = s[i]
        if ch.isspace():
            i += 1
            continue
        if s.startswith("//", i) or s.startswith("/*", i):
            i = _skip(s, i)
            continue
        if s.startswith("%type", i) or s.startswith("%start", i):
            i = s.index(";", i) + 1
            continue
        m = re.match(r"%start\s+\w+", s[i:])
        if m:
            i += m.end()
            continue
        if s.startswith("%prec", i):
            m = re.match(r"%prec\s+\w+", s[i:])
            i += m.end()
            continue
        if s.startswith("%empty", i):
            i += 6
            continue
        if ch == "{":
            j = block(s, i)
            if act:
                raise Broken("two actions in one rule of %s" % lhs)
            act = s[i:j]
            i = j
            continue
        if ch == "|":
            flush()
            rhs, act = [], ""
            i += 1
            continue
        if ch == ";":
            flush()
            lhs, rhs, act = None, [], ""
            i += 1
            continue
        m = re.match(r"([A-Za-z_]\w*)\s*:", s[i:])
        if m:
            flush()
            lhs, rhs, act = m.group(1), [], ""
            i += m.end()
            continue
        m = re.match(r"[A-Za-z_]\w*", s[i:])
        if m:
            if act:
                raise Broken("action in the middle of a rule of %s" % lhs)
            rhs.append(m.group(0))
            i += m.end()
            continue
        raise Broken("unexpected %r in %s" % (s[i:i + 20], path))
    flush()
    return out


SILENT = ("CMMC_NONTERMINAL", "CMMC_EMPTY", "CMMC_NEED_EXTENSION", "CMMC_RECORD", "CMMC_MISS_RP", "CMMC_MISS_RB", "CMMC_MISS_RC",
          "CMMC_MISS_SEMI", "CMMC_MISS_SPECIFIER", "CMMC_BAD_STRUCT")


def defines():
    s = open(REPO + "/cmmc/Frontend/FrontendSupport.hpp").read()
    s = re.sub(r"\\\n", " ", s)
    out = []
    for line in s.split("\n"):
        m = re.match(r"\s*#\s*define\s+(\w+)", line)
        if m:
            out.append("#define %s(...)" % m.group(1) if m.group(1) in SILENT else line.strip())
    return out


def expand(texts):
    """the texts after the preprocessor"""
    src = "\n".join(defines()) + "\n"
    for i, t in enumerate(texts):
        t = re.sub(r"//[^\n]*", "", t)
        src += "VMARK %d\n%s\n" % (i, " ".join(t.split("\n")) if "#" not in t else t)
    p = subprocess.run(["g++", "-E", "-P", "-x", "c++", "-"], input=src, capture_output=True, text=True)
    if p.returncode:
        raise Broken("the preprocessor failed: " + p.stderr[:200])
    out = re.split(r"^VMARK (\d+)$", p.stdout, flags=re.M)
    res = [""] * len(texts)
    for k in range(1, len(out), 2):
        res[int(out[k])] = out[k + 1].strip()
    return res


# ---------------------------------------------------------------- actions
TOK = re.compile(r"\s*(\$\$|\$\d+|@\$|@\d+|[A-Za-z_]\w*|\d+[uUlL]*|\"(?:[^\"\\]|\\.)*\"\w*|'(?:[^'\\]|\\.)*'|::|->|==|!=|&&|\|\||<=|>=|<<|>>|.)", re.S)


class P:
    def __init__(self, s):
        self.t = [x for x in TOK.findall(s) if x.strip()]
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def eat(self, x=None):
        v = self.peek()
        if v is None or (x is not None and v != x):
            raise Unknown("expected %s, found %s" % (x, v))
        self.i += 1
        return v

    def expr(self):
        c = self.unary()
        if self.peek() in ("!=", "=="):
            op = self.eat()
            c = (op, c, self.unary())
        if self.peek() == "?":
            self.eat()
            a = self.expr()
            self.eat(":")
            b = self.expr()
            return ("cond", c, a, b)
        return c

    def args(self, close):
        out = []
        while self.peek() != close:
            out.append(self.expr())
            if self.peek() == ",":
                self.eat()
            elif self.peek() != close:
                raise Unknown("argument list at %s" % self.peek())
        self.eat(close)
        return out

    def unary(self):
        t = self.peek()
        if t in ("*", "&", "!", "-"):
            self.eat()
            return ("un", t, self.unary())
        return self.postfix()

    def angle(self):
        self.eat("<")
        out, d = [], 1
        while d:
            t = self.eat()
            d += {"<": 1, ">": -1, ">>": -2}.get(t, 0)
            if d > 0:
                out.append(t)
        return "".join(out)

    def postfix(self):
        t = self.peek()
        if t is None:
            raise Unknown("empty expression")
        if t == "(":
            self.eat()
            e = self.expr()
            self.eat(")")
        elif t == "{":
            self.eat()
            e = ("init", "", self.args("}"))
        elif t[0] in "$@":
            self.eat()
            e = ("ref", t)
        elif t[0] in "\"'" or t[0].isdigit():
            self.eat()
            e = ("lit", t)
        elif re.match(r"[A-Za-z_]", t):
            n = self.eat()
            while self.peek() == "::":
                self.eat()
                n += "::" + self.eat()
            e = ("name", n)
            if self.peek() == "<" and re.match(r"(make|static_cast|std::move|const_cast|dynamic_cast|std::make_\w+)$", n):
                e = ("tmpl", n, self.angle())
            if self.peek() == "{":
                self.eat()
                e = ("init", n, self.args("}"))
        else:
            raise Unknown("expression at %s" % t)
        while True:
            t = self.peek()
            if t == "(":
                self.eat()
                e = ("call", e, self.args(")"))
            elif t in (".", "->"):
                self.eat()
                e = ("mem", e, self.eat())
            else:
                return e


class Action:
    """what one rule's action computes"""

    def __init__(self, text):
        self.text = text
        self.err = None
        self.stmts = []
        body = text.strip()
        if body.startswith("{"):
            body = body[1:block(body, 0) - 1]
        for part in self.split(body):
            try:
                p = P(part)
                if p.peek() is None:
                    continue
                if p.peek() in ("auto", "const", "Expr", "ExprPack") and not (p.peek() == "ExprPack" and p.peek(1) == "{"):
                    while p.peek(1) not in ("=", None, "{", ";"):
                        p.eat()
                    n = p.eat()
                    p.eat("=")
                    st = ("let", n, p.expr())
                else:
                    e = p.expr()
                    if p.peek() == "=":
                        p.eat()
                        st = ("set", e, p.expr())
                    else:
                        st = ("do", e)
                if p.peek() is not None:
                    raise Unknown("statement at %s" % p.peek())
                self.stmts.append(st)
            except Unknown as ex:
                if "$" in part:      # anything else cannot change what the rule builds
                    self.err = str(ex)

    @staticmethod
    def split(body):
        out, d, i, b = [], 0, 0, 0
        while i < len(body):
            j = _skip(body, i)
            if j > i:
                i = j
                continue
            d += {"(": 1, "{": 1, "[": 1, ")": -1, "}": -1, "]": -1}.get(body[i], 0)
            if body[i] == ";" and d == 0:
                out.append(body[b:i])
                b = i + 1
            i += 1
        return out + [body[b:]]

    def run(self, args):
        if self.err:
            return ("?", self.err)
        env = {"$%d" % (i + 1): a for i, a in enumerate(args)}
        env["$$"] = args[0] if not self.stmts and args else None
        try:
            for s in self.stmts:
                if s[0] == "let":
                    env[s[1]] = self.ev(s[2], env)
                elif s[0] == "set":
                    d = s[1]
                    if d[0] == "ref":
                        env[d[1]] = self.ev(s[2], env)
                    elif d[0] == "mem" and d[1][0] in ("ref",):
                        o = env.get(d[1][1])
                        o = dict(o) if isinstance(o, dict) else ({} if o is None else {"": o})
                        o[d[2]] = self.ev(s[2], env)
                        env[d[1][1]] = o
                    else:
                        pass
                else:
                    self.do(s[1], env)
            return env["$$"]
        except Unknown as ex:
            return ("?", str(ex))

    def do(self, e, env):
        if e[0] != "call":
            if "$" in str(e):
                raise Unknown("statement")
            return
        f, a = e[1], e[2]
        if f[0] == "name" and f[1] == "concatPack" and len(a) == 3 and a[0] == ("ref", "$$"):
            l, r = self.ev(a[1], env), self.ev(a[2], env)
            l = l if isinstance(l, list) else [l]
            r = r if isinstance(r, list) else [r]
            env["$$"] = l + r
            return
        if f[0] == "name" and f[1] == "generateScope" and len(a) == 3 and a[0] == ("ref", "$$"):
            l, r = self.ev(a[1], env), self.ev(a[2], env)
            env["$$"] = [("LocalVarDefExpr", d) for d in l] + list(r)
            return
        if f[0] == "mem" and f[2] in ("push_back", "emplace_back") and f[1][0] == "mem" and f[1][1][0] == "ref":
            o = dict(env[f[1][1][1]])
            o[f[1][2]] = list(o.get(f[1][2]) or []) + [self.ev(a[0], env)]
            env[f[1][1][1]] = o
            return
        if f[0] == "mem" and f[2] in ("push_back", "emplace_back") and f[1][0] == "ref":
            env[f[1][1]] = list(env.get(f[1][1]) or []) + [self.ev(a[0], env)]
            return
        if f[0] == "mem" and f[1] == ("name", "driver"):
            env.setdefault("driver", []).append((f[2], [self.ev(x, env) for x in a]))
            return
        raise Unknown("call of %s" % (f,))

    def part(self, e, env):
        try:
            return self.ev(e, env)
        except Unknown as ex:
            return ("?", str(ex))

    def ev(self, e, env):
        k = e[0]
        if k == "ref":
            if e[1][0] == "@":
                return ("@", e[1])
            if e[1] not in env:
                raise Unknown(e[1])
            return env[e[1]]
        if k == "lit":
            return e[1]
        if k == "name":
            if e[1] in env:
                return env[e[1]]
            return e[1].split("::")[-1]
        if k == "init":
            v = [self.part(x, env) for x in e[2]]
            if e[1].split("::")[-1] in ("", "ExprPack"):
                return v
            return (e[1].split("::")[-1],) + tuple(x for x in v if not (isinstance(x, tuple) and x[:1] == ("@",)))
        if k == "call":
            f = e[1]
            n = f[1] if f[0] in ("name", "tmpl") else None
            if n in ("std::move", "static_cast", "castLoc", "const_cast", "dynamic_cast") and len(e[2]) == 1:
                return self.ev(e[2][0], env)
            if f[0] == "tmpl" and n == "make":
                v = [self.ev(x, env) for x in e[2]]
                if not v or not (isinstance(v[0], tuple) and v[0][:1] == ("@",)):
                    raise Unknown("make without a location")
                return node(f[2].split("::")[-1], v[1:])
            if n == "generateDef":
                return ("LocalVarDefExpr", self.ev(e[2][0], env))
            raise Unknown("call of %s" % (f,))
        if k == "mem":
            o = self.ev(e[1], env)
            if isinstance(o, dict):
                return o.get(e[2])
            return ("mem", o, e[2])
        if k == "cond":
            # the spelling of a label decides between a label and the default case
            return ("LABEL",) if "default" in str(e[1]) else ("?", "conditional")
        raise Unknown("expression %s" % k)


# constructors: the members in the order the trees below list them
MEMBERS = {
    "BinaryExpr": ("mOp", "mLhs", "mRhs"), "CompoundAssignExpr": ("mOp", "mLhs", "mRhs"), "UnaryExpr": ("mOp", "mValue"),
    "SelfIncDecExpr": ("mOp", "mValue"), "FunctionCallExpr": ("mCallee", "mArgs"), "IfElseExpr": ("mPredicate", "mThenBlock", "mElseBlock"),
    "WhileExpr": ("mPredicate", "mBlock"), "ArrayIndexExpr": ("mBase", "mIndex"), "StructIndexExpr": ("mBase", "mField"),
    "ForExpr": ("mInit", "mCondition", "mIteration", "mBody"), "DoWhileExpr": ("mBody", "mCondition"),
    "SelectExpr": ("mCondition", "mLhs", "mRhs"), "CastExpr": ("mType", "mVal"), "CommaExpr": ("mLhs", "mRhs"),
    "SwitchExpr": ("mKey", "mBody"),
}
_order = {}


def ctor_order(cls):
    """for each parameter after the location, the position the trees give the member it initialises"""
    if cls in _order:
        return _order[cls]
    want = MEMBERS.get(cls)
    res = None
    if want:
        s = open(REPO + "/cmmc/Frontend/AST.hpp").read()
        m = re.search(r"[\s;{}]%s\(([^{;]*?)\)\s*(?:noexcept)?\s*:(.*?)\{\s*\}\s*;?\s*\n" % cls, s, re.S)
        if m:
            params = [p.strip().split()[-1].lstrip("*&") for p in m.group(1).split(",")][1:]
            inits = dict((b, a) for a, b in re.findall(r"(\w+)\{\s*(?:std::move\(\s*)?(\w+)\s*\)?\s*\}", m.group(2)))
            mem = [inits.get(p) for p in params]
            if sorted(map(str, mem)) == sorted(want):
                res = [want.index(x) for x in mem]
    _order[cls] = res
    return res


def node(cls, v):
    o = ctor_order(cls)
    if o and len(o) == len(v):
        w = [None] * len(v)
        for i, x in zip(o, v):
            w[i] = x
        v = w
    return (cls,) + tuple(tuple(x) if isinstance(x, list) else x for x in v)


class Grammar:
    def __init__(self, lang):
        d = vlib.gen_headers()
        self.lang = lang
        self.file = "Frontend/Parser%s.yy" % lang
        self.auto = Automaton("%s/%s/grammar.xml" % (d, lang))
        acts = actions(REPO + "/cmmc/" + self.file)
        rules = self.auto.rules[1:]
        if len(acts) != len(rules) or any(a[0] != r[0] or len(a[1]) != len(r[1]) for a, r in zip(acts, rules)):
            raise Broken("the rules of %s were not understood" % self.file)
        texts = expand([a[2] for a in acts])
        self.acts = [None] + [Action(t) for t in texts]
        self.used = set()

    def reduce(self, r, args):
        self.used.add(r)
        return self.acts[r].run(args)

    def parse(self, tokens):
        return self.auto.parse(tokens, self.reduce)


# ---------------------------------------------------------------- the scanner
class Scanner:
    """flex rules: longest match, first rule"""

    def __init__(self, lang):
        self.file = "Frontend/Scanner%s.ll" % lang
        s = open(REPO + "/cmmc/" + self.file).read()
        defs, body = re.split(r"^%%[ \t]*$", s, flags=re.M)[:2]
        names = dict(re.findall(r"^([A-Z_]\w*)[ \t]+(\S.*?)[ \t]*$", defs, re.M))
        self.prologue = ""
        rules = []
        i = 0
        while i < len(body):
            if body[i] == "\n":
                i += 1
                continue
            if body.startswith("%{", i):
                j = body.index("\n%}", i)
                self.prologue += body[i + 2:j]
                i = j + 3
                continue
            if body[i] in " \t":
                j = body.find("\n", i)
                i = len(body) if j < 0 else j
                continue
            pat, i = self._pattern(body, i)
            while i < len(body) and body[i] in " \t":
                i += 1
            if i < len(body) and body[i] == "{":
                j = block(body, i)
            else:
                j = body.find("\n", i)
                j = len(body) if j < 0 else j
            rules.append((pat, body[i:j]))
            i = j
        rules = [r for r in rules if not r[0].startswith("<<EOF")]
        acts = expand([a for _, a in rules])
        self.rules = [(p, re.compile(self._regex(p, names)), a) for (p, _), a in zip(rules, acts)]
        self.lambdas = {}
        for m in re.finditer(r"auto\s+(\w+)\s*=\s*\[[^\]]*\]\s*(?:\([^)]*\))?\s*\{", self.prologue):
            j = block(self.prologue, m.end() - 1)
            self.lambdas[m.group(1)] = self.prologue[m.end() - 1:j]
        ex = expand([re.sub(r"^\s*#.*$", "", t, flags=re.M) for t in self.lambdas.values()])
        self.lambdas = dict(zip(self.lambdas, ex))

    @staticmethod
    def _pattern(s, i):
        j = i
        while not s[j].isspace():
            if s[j] == '"':
                j += 1
                while s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
                j += 1
            elif s[j] == "[":
                j += 1
                if s[j] == "^":
                    j += 1
                if s[j] == "]":
                    j += 1
                while s[j] != "]":
                    j += 2 if s[j] == "\\" else 1
                j += 1
            elif s[j] == "\\":
                j += 2
            else:
                j += 1
        return s[i:j], j

    def _regex(self, p, names):
        out, i = "", 0
        while i < len(p):
            if p[i] == '"':
                j = i + 1
                lit = ""
                while p[j] != '"':
                    if p[j] == "\\":
                        lit += {"n": "\n", "t": "\t", "r": "\r"}.get(p[j + 1], p[j + 1])
                        j += 2
                    else:
                        lit += p[j]
                        j += 1
                out += "(?:%s)" % re.escape(lit)
                i = j + 1
            elif p[i] == "[":
                j = i + 1
                if p[j] == "^":
                    j += 1
                if p[j] == "]":
                    j += 1
                while p[j] != "]":
                    j += 2 if p[j] == "\\" else 1
                out += p[i:j + 1]
                i = j + 1
            elif p[i] == "{" and re.match(r"\{[A-Za-z_]\w*\}", p[i:]):
                j = p.index("}", i)
                out += "(?:%s)" % self._regex(names[p[i + 1:j]], names)
                i = j + 1
            elif p[i] in "()|?*+" or p[i].isalnum() or p[i] in "._{},":
                out += "(?:" if p[i] == "(" else p[i]
                i += 1
            elif p[i] == "\\":
                out += p[i:i + 2]
                i += 2
            else:
                raise Broken("pattern %r of %s" % (p, self.file))
        return out

    def match(self, s, i=0):
        """(length, rule number) of the rule flex would choose"""
        best = (0, None)
        for k, (p, rx, a) in enumerate(self.rules):
            for n in range(len(s) - i, best[0], -1):
                if rx.fullmatch(s, i, i + n):
                    best = (n, k)
                    break
        return best

    def token(self, k, ext=True):
        """(token, action) the action of a rule returns; None if it returns none"""
        a = self.rules[k][2]
        m = re.match(r"\{?\s*if\s*\(\s*(!?)\s*driver\s*\.\s*checkExtension\(\)\s*\)\s*\{", a)
        if m:
            j = block(a, m.end() - 1)
            yes, no = a[m.end() - 1:j], a[j:]
            a = yes if ext == (not m.group(1)) else no
        for n, b in self.lambdas.items():
            if re.search(r"\b%s\s*\(" % n, a):
                t = set(re.findall(r"make_(\w+)\s*\(", b))
                return (t.pop() if len(t) == 1 else "?"), a
        t = re.findall(r"make_(\w+)\s*\(", a)
        if not t:
            return None, a
        return (t[-1] if len(set(t)) == 1 or "ERR" in t[-1:] else "?"), a

    def scan(self, s):
        out, i = [], 0
        while i < len(s):
            n, k = self.match(s, i)
            if not n:
                return out + [("ERR", s[i:])]
            t, a = self.token(k)
            if t:
                out.append((t, s[i:i + n]))
            i += n
        return out
