"""Every operator has C's precedence, associativity and spelling, in both accepted languages."""
from _common import *
import itertools
import multiprocessing
import grammar as G
from absint import Machine, Ptr
from terms import Undecided, Trap

BIN = {  # token: (level, right associative, node)
    "ASSIGN": (1, "B:Assign"), "PLUS_ASSIGN": (1, "C:Add"), "MINUS_ASSIGN": (1, "C:Sub"), "MUL_ASSIGN": (1, "C:Mul"), "DIV_ASSIGN": (1, "C:Div"),
    "REM_ASSIGN": (1, "C:Rem"), "BAND_ASSIGN": (1, "C:BitwiseAnd"), "BOR_ASSIGN": (1, "C:BitwiseOr"), "XOR_ASSIGN": (1, "C:Xor"),
    "SHL_ASSIGN": (1, "C:ShiftLeft"), "SHR_ASSIGN": (1, "C:ShiftRight"),
    "OR": (3, "B:LogicalOr"), "AND": (4, "B:LogicalAnd"), "BOR": (5, "B:BitwiseOr"), "XOR": (6, "B:Xor"), "BAND": (7, "B:BitwiseAnd"),
    "EQ": (8, "B:Equal"), "NE": (8, "B:NotEqual"), "LT": (9, "B:LessThan"), "LE": (9, "B:LessEqual"), "GT": (9, "B:GreaterThan"), "GE": (9, "B:GreaterEqual"),
    "SHL": (10, "B:ShiftLeft"), "SHR": (10, "B:ShiftRight"), "PLUS": (11, "B:Add"), "MINUS": (11, "B:Sub"),
    "MUL": (12, "B:Mul"), "DIV": (12, "B:Div"), "REM": (12, "B:Rem")}
PRE = {"MINUS": ("UnaryExpr", "Neg"), "PLUS": ("UnaryExpr", "Positive"), "NOT": ("UnaryExpr", "LogicalNot"), "BNOT": ("UnaryExpr", "BitwiseNot"),
       "BAND": ("AddressExpr",), "MUL": ("DerefExpr",), "INC": ("SelfIncDecExpr", "PrefixInc"), "DEC": ("SelfIncDecExpr", "PrefixDec")}
SPELL = {"INC": "++", "DEC": "--", "PLUS": "+", "MINUS": "-", "MUL": "*", "DIV": "/", "REM": "%", "NOT": "!", "BNOT": "~", "AND": "&&", "BAND": "&",
         "OR": "||", "BOR": "|", "XOR": "^", "LT": "<", "GT": ">", "LE": "<=", "GE": ">=", "EQ": "==", "NE": "!=", "ASSIGN": "=", "SHL": "<<", "SHR": ">>",
         "PLUS_ASSIGN": "+=", "MINUS_ASSIGN": "-=", "MUL_ASSIGN": "*=", "DIV_ASSIGN": "/=", "REM_ASSIGN": "%=", "BAND_ASSIGN": "&=", "BOR_ASSIGN": "|=",
         "XOR_ASSIGN": "^=", "SHL_ASSIGN": "<<=", "SHR_ASSIGN": ">>=", "DOT": ".", "SEMI": ";", "COMMA": ",", "SHARP": "#", "QUEST": "?", "COLON": ":",
         "LP": "(", "RP": ")", "LB": "[", "RB": "]", "LC": "{", "RC": "}"}
WORDS = {"IF": "if", "ELSE": "else", "WHILE": "while", "DO": "do", "FOR": "for", "CONTINUE": "continue", "BREAK": "break", "RETURN": "return",
         "GOTO": "goto", "SWITCH": "switch", "CASE": "case", "STRUCT": "struct", "UNION": "union", "CONST": "const"}
MISSING = {"Spl": {"REM_ASSIGN", "BAND_ASSIGN", "BOR_ASSIGN", "XOR_ASSIGN", "SHL_ASSIGN", "SHR_ASSIGN", "SHL", "SHR", "GOTO", "CONST"}, "SysY": set()}
CPUNCT = sorted(list(SPELL.values()) + ["->", "...", "##", "%:", "<:", ":>", "<%", "%>", "//", "/*"], key=lambda x: -len(x))
SHOW = dict(SPELL)
SHOW.update(WORDS)


class Reject(Exception):
    pass


class Ref:
    """C's grammar"""

    def __init__(self, lang, toks):
        self.lang, self.t, self.i = lang, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def eat(self, n=None):
        if self.i >= len(self.t) or (n and self.t[self.i][0] != n):
            raise Reject()
        self.i += 1
        return self.t[self.i - 1][1]

    # every expression comes with its syntactic class: postfix/unary (0), cast (1), anything else (2)
    def comma(self):
        e = [self.assign()]
        while self.peek() == "COMMA":
            self.eat()
            e.append(self.assign())
        return e[0] if len(e) == 1 else ("Comma",) + tuple(e)

    def assign(self):
        e, k = self.cond()
        t = self.peek()
        if t in BIN and BIN[t][0] == 1:
            if k > 0:
                raise Reject()
            self.eat()
            kind, op = BIN[t][1].split(":")
            return ("BinaryExpr" if kind == "B" else "CompoundAssignExpr", op, e, self.assign())
        return e

    def cond(self):
        e, k = self.binary(3)
        if self.peek() == "QUEST":
            self.eat()
            a = self.comma()
            if a[0] == "Comma":
                raise Reject()      # outside the accepted language
            self.eat("COLON")
            b, _ = self.cond()
            return ("SelectExpr", e, a, b), 2
        return e, k

    def binary(self, lvl):
        e, k = self.cast()
        while True:
            t = self.peek()
            if t not in BIN or BIN[t][0] < lvl:
                return e, k
            l = BIN[t][0]
            self.eat()
            r, _ = self.binary(l + 1)
            e, k = ("BinaryExpr", BIN[t][1][2:], e, r), 2

    def cast(self):
        if self.peek() == "LP" and self.peek(1) == "TYPE":
            self.eat()
            ty = self.eat()
            self.eat("RP")
            e, _ = self.cast()
            return ("CastExpr", ty, e), 1
        return self.unary()

    def unary(self):
        t = self.peek()
        if t in ("INC", "DEC"):
            self.eat()
            e, k = self.unary()
            return PRE[t] + (e,), 0
        if t in PRE:
            self.eat()
            e, _ = self.cast()
            return PRE[t] + (e,), 0
        return self.postfix(), 0

    def postfix(self):
        t = self.peek()
        if t == "LP":
            self.eat()
            e = self.comma()
            if e[0] == "Comma" and (self.lang == "Spl" or len(e) > 3):
                raise Reject()
            self.eat("RP")
        elif t == "ID":
            e = ("IdentifierExpr", self.eat())
        elif t == "INT":
            e = ("ConstantIntExpr", self.eat())
        elif t == "FLOAT":
            e = ("ConstantFloatExpr", self.eat())
        elif t == "CHAR":
            e = ("ConstantIntExpr", self.eat())
        elif t == "STRING" and self.lang == "SysY":
            e = ("ConstantStringExpr", self.eat())
        else:
            raise Reject()
        while True:
            t = self.peek()
            if t in ("INC", "DEC"):
                self.eat()
                e = ("SelfIncDecExpr", "SuffixInc" if t == "INC" else "SuffixDec", e)
            elif t == "LB":
                self.eat()
                i = self.comma()
                if i[0] == "Comma":
                    raise Reject()
                self.eat("RB")
                e = ("ArrayIndexExpr", e, i)
            elif t == "DOT":
                self.eat()
                e = ("StructIndexExpr", e, self.eat("ID"))
            elif t == "LP":
                if self.lang == "Spl" and e[0] != "IdentifierExpr":
                    raise Reject()
                self.eat()
                a = []
                while self.peek() != "RP":
                    a.append(self.assign())
                    if self.peek() != "RP":
                        self.eat("COMMA")
                        if self.peek() == "RP":
                            raise Reject()
                self.eat("RP")
                e = ("FunctionCallExpr", e, tuple(a))
            else:
                return e

    def stmt(self):
        t = self.peek()
        if t == "LC":
            return ("ScopedExpr", self.comp())
        if t == "SEMI":
            self.eat()
            return ("EmptyExpr",)
        if t == "RETURN":
            self.eat()
            e = "nullptr" if self.peek() == "SEMI" else self.comma()
            if e[0] == "Comma":
                raise Reject()
            self.eat("SEMI")
            return ("ReturnExpr", e)
        if t in ("BREAK", "CONTINUE"):
            self.eat()
            self.eat("SEMI")
            return ("BreakExpr" if t == "BREAK" else "ContinueExpr",)
        if t in ("IF", "WHILE", "SWITCH"):
            self.eat()
            self.eat("LP")
            c = self.nocomma()
            self.eat("RP")
            b = self.stmt()
            if t == "WHILE":
                return ("WhileExpr", c, b)
            if t == "SWITCH":
                return ("SwitchExpr", c, b)
            e = "nullptr"
            if self.peek() == "ELSE":
                self.eat()
                e = self.stmt()
            return ("IfElseExpr", c, b, e)
        if t == "DO":
            self.eat()
            b = self.stmt()
            self.eat("WHILE")
            self.eat("LP")
            c = self.nocomma()
            self.eat("RP")
            self.eat("SEMI")
            return ("DoWhileExpr", b, c)
        if t == "FOR":
            self.eat()
            self.eat("LP")
            a = self.stmt()
            b = "nullptr" if self.peek() == "SEMI" else self.nocomma()
            self.eat("SEMI")
            d = "nullptr" if self.peek() == "RP" else self.nocomma()
            self.eat("RP")
            return ("ForExpr", a, b, d, self.stmt())
        if t == "GOTO":
            self.eat()
            l = self.eat("ID")
            self.eat("SEMI")
            return ("GotoExpr", l)
        if t == "CASE":
            self.eat()
            e = self.cond()[0]
            self.eat("COLON")
            return ("CaseExpr", e)
        if t == "ID" and self.peek(1) == "COLON":
            self.eat()
            self.eat()
            return ("LABEL",)
        e = self.comma()
        self.eat("SEMI")
        return e

    def nocomma(self):
        e = self.comma()
        if e[0] == "Comma":
            raise Reject()
        return e

    def comp(self):
        self.eat("LC")
        out = []
        while self.peek() != "RC":
            out.append(self.stmt())
        self.eat("RC")
        return tuple(out)


def norm(x):
    """the tree with what this property does not speak about left out"""
    if isinstance(x, (list, tuple)):
        if x and x[0] == "?":
            raise G.Unknown(x[1])
        if x and x[0] == "IdentifierExpr":
            return ("IdentifierExpr", x[1])
        if x and x[0] in ("ConstantIntExpr", "ConstantFloatExpr", "ConstantStringExpr"):
            v = x[1]
            if isinstance(v, tuple) and v[0] == "mem" and v[2] == "val":
                v = v[1]
            return (x[0], v)
        if x and x[0] == "CastExpr":
            ty = x[1]
            while isinstance(ty, (tuple, list)) and ty:
                if ty[0] == "?":
                    raise G.Unknown(ty[1])
                ty = ty[0]
            return ("CastExpr", ty, norm(x[2]))
        if x and x[0] == "CommaExpr":
            l, r = norm(x[1]), norm(x[2])
            return ("Comma",) + (l[1:] if l[0] == "Comma" else (l,)) + (r[1:] if r[0] == "Comma" else (r,))
        if x and x[0] == "Comma":
            l = []
            for k in x[1:]:
                k = norm(k)
                l += k[1:] if k[0] == "Comma" else (k,)
            return ("Comma",) + tuple(l)
        return tuple(norm(k) for k in x)
    return x


GR = {}


def setup(lang):
    if lang not in GR:
        g = G.Grammar(lang)
        s = open(G.REPO + "/cmmc/" + g.file).read()
        g.alias = dict(re.findall(r'(\w+)\s+(?:0\s+)?("[^"\n]*")\s*$', "\n".join(l for l in s.split("\n") if l.startswith("%token")), re.M))
        GR[lang] = g
    return GR[lang]


def judge(lang, toks):
    """None if the sequence is outside the language; else (ok, detail)"""
    g = setup(lang)
    body = [("LC", "{")] + toks + [("RC", "}")]
    try:
        r = Ref(lang, body)
        want = norm(("ScopedExpr", r.comp()))
        if r.i != len(body):
            return None
    except Reject:
        return None
    got = []
    pre = [("TYPE", "int"), ("ID", "f"), ("LP", "("), ("RP", ")")]
    full = [(g.alias.get(n, n), v) for n, v in pre + body] + [(g.alias.get("END", "END"), "")]
    seen = {}

    def reduce(r, args):
        v = g.reduce(r, args)
        if g.auto.rules[r][0] == "CompSt":
            seen["body"] = v
        return v
    if g.auto.parse(full, reduce) is None:
        return False, "is rejected", want
    try:
        got = norm(("ScopedExpr", tuple(seen.get("body") or ())))
    except G.Unknown as e:
        return None, str(e), want
    return (got == want), got, want


def show(x):
    if isinstance(x, tuple):
        if x[:1] == ("IdentifierExpr",) or x[:1] == ("ConstantIntExpr",):
            return str(x[1])
        n = [str(k) for k in x if not isinstance(k, tuple)]
        n = ":".join(k.replace("Expr", "") for k in n)
        return "%s(%s)" % (n, ", ".join(show(k) for k in x if isinstance(k, tuple)))
    return str(x)


def T(*names):
    out, n = [], 0
    for k in names:
        if k == "ID":
            out.append(("ID", "abcdefghijklm"[n]))
            n += 1
        elif k == "TYPE":
            out.append(("TYPE", "float"))
        elif k in ("INT", "FLOAT", "CHAR", "STRING"):
            out.append((k, k.lower() + str(n)))
            n += 1
        else:
            out.append((k, SHOW.get(k, k)))
    return out


def sequences(lang, deep):
    """(key, tokens): every way to put operators next to each other"""
    have = [b for b in BIN if b not in MISSING[lang]]
    pre = [(p,) for p in PRE if lang == "SysY" or p not in ("PLUS", "BAND", "MUL")] + ([("LP", "TYPE", "RP")] if lang == "SysY" else [])
    suf = [("INC",), ("DEC",), ("DOT", "ID"), ("LB", "ID", "RB"), ("LP", "ID", "COMMA", "ID", "RP"), ("LP", "RP"), ("LB", "ID", "PLUS", "ID", "RB")]
    binop = [(b,) for b in have] + [("QUEST", "ID", "COLON")] + ([("COMMA",)] if lang == "SysY" else [])
    name = lambda xs: " ".join("".join(SHOW.get(k, k.lower()) for k in x) for x in xs)

    def shape(kind, parts):
        seq = []
        for k in kind:
            seq += ["ID"] if k == "a" else list(parts.pop(0))
        return seq

    def all_of(kinds):
        for kind in kinds:
            pools = [{"p": pre, "s": suf, "b": binop}[k] for k in kind if k != "a"]
            for combo in itertools.product(*pools):
                yield "%s %s" % (kind, name(combo)), shape(kind, list(combo)) + ["SEMI"]
    two = ["pa", "as", "aba", "ppa", "pas", "ass", "paba", "apba".replace("apba", "abpa"), "asba", "abas", "ababa"]
    three = ["pppa", "ppas", "pass", "abpas", "paba" "ba", "abpaba", "ababpa", "asbaba", "abasba", "ababas", "ppaba", "abppa", "pabpa", "asbas", "abass", "assba"]
    yield from all_of(two)
    # the middle of a conditional, parentheses
    for b in binop:
        yield "middle " + name([b]), ["ID", "QUEST", "ID", *b, "ID", "COLON", "ID", "SEMI"]
        for b2 in binop:
            yield "middle %s" % name([b, b2]), ["ID", "QUEST", "ID", *b, "ID", "COLON", "ID", *b2, "ID", "SEMI"]
            yield "(l) %s" % name([b, b2]), ["LP", "ID", *b, "ID", "RP", *b2, "ID", "SEMI"]
            yield "(r) %s" % name([b, b2]), ["ID", *b, "LP", "ID", *b2, "ID", "RP", "SEMI"]
        for p in pre:
            yield "p() %s" % name([p, b]), [*p, "LP", "ID", *b, "ID", "RP", "SEMI"]
        for s in suf:
            yield "()s %s" % name([b, s]), ["LP", "ID", *b, "ID", "RP", *s, "SEMI"]
            yield "index %s" % name([b, s]), ["ID", "LB", "ID", *b, "ID", *s, "RB", "SEMI"]
            if b[0] != "COMMA":
                yield "argument %s" % name([b, s]), ["ID", "LP", "ID", *b, "ID", *s, "COMMA", "ID", *b, "ID", "RP", "SEMI"]
    for lit in ["INT", "FLOAT", "CHAR"] + (["STRING"] if lang == "SysY" else []):
        yield "literal " + lit, [lit, "SEMI"]
        yield "literals " + lit, ["ID", "LP", lit, "COMMA", lit, "RP", "PLUS", lit, "SEMI"]
    # statements
    e, s1, s2, blk = ["ID"], ["ID", "SEMI"], ["ID", "ASSIGN", "ID", "SEMI"], ["LC", "ID", "SEMI", "ID", "SEMI", "RC"]
    simple = [s1, blk, ["SEMI"], ["LC", "RC"], ["RETURN", "SEMI"], ["RETURN", "ID", "SEMI"], ["BREAK", "SEMI"], ["CONTINUE", "SEMI"]]
    heads = [["IF", "LP", "ID", "RP"], ["WHILE", "LP", "ID", "RP"], ["FOR", "LP", "ID", "SEMI", "ID", "SEMI", "ID", "RP"],
             ["FOR", "LP", "SEMI", "SEMI", "RP"], ["FOR", "LP", "ID", "SEMI", "SEMI", "ID", "RP"], ["FOR", "LP", "SEMI", "ID", "SEMI", "RP"]]
    if lang == "SysY":
        simple += [["GOTO", "ID", "SEMI"], ["CASE", "INT", "COLON"], ["ID", "COLON"], ["ID", "COMMA", "ID", "SEMI"]]
    low = lambda t: " ".join(SHOW.get(k, k.lower()) for k in t)
    for x in simple:
        yield "statement " + low(x), x
        for y in simple:
            yield "statements " + low(x + y), x + y
            yield "do " + low(x + y), ["DO", *x, "WHILE", "LP", "ID", "RP", "SEMI", *y]
            yield "if else " + low(x + y), ["IF", "LP", "ID", "RP", *x, "ELSE", *y]
            for h in heads:
                yield "dangling else " + low(h + x + y), ["IF", "LP", "ID", "RP", *h, *x, "ELSE", *y]
                yield "else in if " + low(h + x + y), ["IF", "LP", "ID", "RP", *h, *x, "ELSE", *y, "ELSE", *s1]
                yield "else if " + low(h + x + y), ["IF", "LP", "ID", "RP", *x, "ELSE", *h, *y, "ELSE", *s1]
        for h in heads:
            yield "body " + low(h + x), [*h, *x]
            for h2 in heads:
                yield "nested " + low(h + h2 + x), [*h, *h2, *x, *s1]
    if lang == "SysY":
        yield "switch", ["SWITCH", "LP", "ID", "RP", "LC", "CASE", "INT", "COLON", *s1, "BREAK", "SEMI", "ID", "COLON", *s2, "RC"]
        yield "case", ["SWITCH", "LP", "ID", "RP", "LC", "CASE", "INT", "QUEST", "INT", "COLON", "INT", "COLON", *s1, "RC"]
    if deep:
        yield from all_of(three)
    else:
        yield from all_of(["abpas", "pass", "pppa", "ppas", "asbas", "pabpa"])
        # one operator of each level is enough for a third neighbour: the automaton's states follow the levels
        lv = {}
        for b in binop:
            lv.setdefault(BIN[b[0]][0] if b[0] in BIN else b[0], b)
        for combo in itertools.product(lv.values(), repeat=3):
            yield "abababa " + name(combo), shape("abababa", list(combo)) + ["SEMI"]


def work(a):
    lang, items = a
    out = []
    for key, seq in items:
        r = judge(lang, T(*seq))
        if r is not None:
            out.append((key, r[0], r[1] if isinstance(r[1], str) else show(r[1]), show(r[2])) if not r[0] else (key, True, "", ""))
    return lang, len(items), out


def munch(s, known):
    out = []
    while s:
        for p in CPUNCT:
            if s.startswith(p):
                if p not in known:
                    return None
                out.append(p)
                s = s[len(p):]
                break
        else:
            return None
    return out


def spelling(c, lang):
    sc = G.Scanner(lang)
    c.units.add(sc.file)
    known = {v: k for k, v in SPELL.items() if k not in MISSING[lang]}
    where = lambda s: "%s: rule %s" % (sc.file, sc.rules[sc.match(s)[1]][0] if sc.match(s)[1] is not None else "none")

    def expect(key, text, want):
        got = sc.scan(text)
        if any(t == "?" for t, _ in got):
            c.undec("%s/%s" % (lang, key), "the action of a rule matching %r was not understood" % text)
            return
        c.expect(got == want, "%s/%s" % (lang, key), where(text),
                 "%r is read as %s instead of %s" % (text, " ".join("%s(%s)" % x for x in got), " ".join("%s(%s)" % x for x in want)))
    for n, s in list(SPELL.items()) + list(WORDS.items()):
        if n not in MISSING[lang]:
            expect("spelling " + s, s, [(n, s)])
    pun = list(known)
    for a in pun:
        for b in pun:
            m = munch(a + b, known)
            if m:
                expect("adjacent %s %s" % (a, b), a + b, [(known[p], p) for p in m])
    some = [p for p in pun if p[0] in "<>=&|+-*"]
    for a, b, d in itertools.product(some, repeat=3):
        if len(a) + len(b) + len(d) <= 5:
            m = munch(a + b + d, known)
            if m:
                expect("adjacent %s %s %s" % (a, b, d), a + b + d, [(known[p], p) for p in m])
    for n, w in WORDS.items():
        for s in (w + "x", w + "1", w + "_", "x" + w, "_" + w, w.upper(), w[:-1]):
            if s not in WORDS.values():
                expect("identifier " + s, s, [("ID", s)])
    types = ["int", "char", "float"] + (["void", "double", "int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t"] if lang == "SysY" else [])
    for t in types:
        expect("type " + t, t, [("TYPE", t)])
        for s in (t + "x", t + "1", "x" + t):
            expect("identifier " + s, s, [("ID", s)])
    ints = {10: ["0", "7", "10", "99", "2147483647", "4294967296"], 16: ["0x0", "0X1F", "0xabcdef", "0xFFFFFFFF", "0x10"]}
    flo = ["1.5", "0.25", "10.0"]
    if lang == "SysY":
        ints[8] = ["01", "010", "0777", "017"]
        flo += [".5", "1.", "1e5", "1E5", "1.5e-3", "1.5E+3", ".5e1", "1.5f", "1.F", "1e5f", "0x1.8p3", "0x.8p-1", "0x1.p+2f", "010.5", "09.5"]
    for radix, vs in ints.items():
        for v in vs:
            for suffix in ["", "U", "L", "UL", "LL", "ULL"] if lang == "SysY" else [""]:
                expect("integer " + v + suffix, v + suffix, [("INT", v + suffix)])
            k = sc.match(v)[1]
            act = sc.token(k)[1] if k is not None else ""
            r = re.findall(r"(?:emitInteger\s*\(\s*|strtou?ll\s*\([^;]*?,\s*)(\d+)\s*\)", act)
            key = "%s/radix of %s" % (lang, v)
            if len(r) != 1:
                c.undec(key, "the radix is not a constant of the action")
            else:
                c.expect(int(r[0]) == radix or int(v, radix) < min(8, radix), key, where(v), "%s is read in base %s instead of %d" % (v, r[0], radix))
    for v in flo:
        expect("float " + v, v, [("FLOAT", v)])
        expect("float %s in a sum" % v, v + "+" + v, [("FLOAT", v), ("PLUS", "+"), ("FLOAT", v)])
    for v in ["'a'", "'0'", "'\\x41'", "' '"]:
        expect("character " + v, v, [("CHAR", v)])
        expect("characters " + v, v + "+" + v, [("CHAR", v), ("PLUS", "+"), ("CHAR", v)])
    expect("member", "a.b", [("ID", "a"), ("DOT", "."), ("ID", "b")])
    expect("index", "a1[2]", [("ID", "a1"), ("LB", "["), ("INT", "2"), ("RB", "]")])
    if lang == "SysY":
        for v in ['"a"', '""', '"a b"', '"+"', '"%d"', '"a\\"b"']:
            expect("string " + v, v, [("STRING", v)])
            expect("strings " + v, v + "," + v, [("STRING", v), ("COMMA", ","), ("STRING", v)])


LITERALS = """
#include <cmmc/Frontend/AST.hpp>
#include <limits>
#include <cstdlib>
using namespace cmmc;
extern "C" void vk_err();
#define CMMC_RECORD(...) 0
#define CMMC_INTEGER_OUT_OF_RANGE_ERROR(X) vk_err()
struct VkLoc { int a, b; };
struct Parser {
    static IntegerStorage make_INT(IntegerStorage s, VkLoc) { return s; }
    static FloatingPointStorage make_FLOAT(FloatingPointStorage s, VkLoc) { return s; }
};
extern "C" void vk_int(char* yytext, int radix, uint64_t* val, uint32_t* width, uint8_t* sig) {
    int loc = 0; auto emitInteger = %s; auto r = emitInteger(radix); *val = r.val; *width = r.width; *sig = r.isSigned ? 1 : 0; }
extern "C" void vk_fp(char* yytext, double* val, uint8_t* isfloat) { int loc = 0; auto emitFp = %s; auto r = emitFp(); *val = r.val; *isfloat = r.isFloat ? 1 : 0; }
"""


def literals(c):
    """the type and value C gives an integer constant: its radix, suffix and magnitude decide"""
    sc = G.Scanner("SysY")
    src = {}
    for n in ("emitInteger", "emitFp"):
        m = re.search(r"auto\s+%s\s*=\s*(\[[^\]]*\]\s*(?:\([^)]*\))?\s*)\{" % n, sc.prologue)
        if m:
            src[n] = sc.prologue[m.start(1):G.block(sc.prologue, m.end() - 1)]
    bc = harness("literals", LITERALS % (src["emitInteger"], src["emitFp"])) if len(src) == 2 else None
    if bc is None:
        c.undec("literals", "the literal actions of the scanner were not understood")
        return

    def fn(name):
        return run_tool("spec", {"modules": [bc], "root": "^vk_%s$" % name, "opaque": ["strto", "vk_err"], "queries": [{"id": "x"}], "cfg": True})["results"][0]
    where = "Frontend/ScannerSysY.ll: literal action"

    def run(f, val, text, args):
        st = {"err": False, "radix": None}

        def call(m, name, a, e):
            if name.startswith("strto") or name.startswith("__isoc23_strto"):
                if isinstance(a[1], Ptr):
                    m.store(a[1], Ptr("text"), 8)
                if len(a) > 2:
                    st["radix"] = a[2]
                return val
            if name == "vk_err":
                st["err"] = True
                return ("void",)
        mem = {("text", i): (ord(ch), 1) for i, ch in enumerate(text)}
        mem[("text", len(text))] = (0, 1)
        m = Machine(f, call, args, mem0=mem, objects=("text", "yytext", "o0", "o1", "o2"), visits=12, keep=lambda k: True)
        ts = m.run()
        if len(ts) != 1 or m.truncated:
            raise Undecided("the action does not depend on the literal alone")
        return ts[0], st

    f = fn("int")
    top = (1 << 64) - 1
    cuts = {(1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1}
    for b in f["blocks"]:     # the constants the code compares with are boundaries, too
        for k in re.findall(r"icmp-\w+:64 \S+ (-?\d+)", str(b)):
            cuts.add(int(k) & top)
    vals = sorted({0, 1, top} | cuts | {x + 1 for x in cuts if x < top} | {x - 1 for x in cuts if x})
    done = {}
    for radix in (10, 16, 8):
        for suffix in ("", "U", "L", "UL", "LL", "ULL"):
            for v in vals:
                order = [(32, 1), (64, 1)] if radix == 10 else [(32, 1), (32, 0), (64, 1), (64, 0)]
                if "U" in suffix:
                    order = [(32, 0), (64, 0)]
                if "L" in suffix:
                    order = [x for x in order if x[0] == 64]
                want = next((x for x in order if v <= (1 << (x[0] - x[1])) - 1), None)
                key = "literal/base %d%s/%d" % (radix, " " + suffix if suffix else "", v)
                try:
                    t, st = run(f, v if v < 1 << 63 else v - (1 << 64), suffix, [Ptr("yytext"), radix, Ptr("o0"), Ptr("o1"), Ptr("o2")])
                    if want is None:
                        c.expect(st["err"], key, where, "an integer constant no type of C can hold is accepted")
                        continue
                    got = [t.mem[(o, 0)][0] for o in ("o0", "o1", "o2")]
                except (Undecided, Trap, KeyError) as e:
                    c.undec(key, str(e))
                    continue
                if any(type(x) is not int for x in got):
                    c.undec(key, "unknown result")
                    continue
                ok = (got[0] & top, got[1], got[2] & 1) == (v,) + want and not st["err"] and st["radix"] == radix
                c.expect(ok, key, where, "the constant %d with base %d and suffix '%s' gets %s%d bits%s (value %d, read in base %s), C gives it %s%d bits" % (
                    v, radix, suffix, "" if got[2] & 1 else "unsigned ", got[1], " and is rejected" if st["err"] else "", got[0] & top, st["radix"],
                    "" if want[1] else "unsigned ", want[0]))
    f = fn("fp")
    for suffix in ("", "f", "F"):
        for v in (1.5, 0.1, 0.0):
            key = "literal/float%s/%s" % (" " + suffix if suffix else "", v)
            try:
                t, st = run(f, v, suffix, [Ptr("yytext"), Ptr("o0"), Ptr("o1")])
                got = [t.mem[(o, 0)][0] for o in ("o0", "o1")]
            except (Undecided, Trap, KeyError) as e:
                c.undec(key, str(e))
                continue
            c.expect(got[0] == v and got[1] & 1 == bool(suffix), key, where, "the constant %s%s becomes %s, float: %s" % (v, suffix, got[0], got[1]))


def body(c):
    deep = c.tier == "thorough"
    jobs = []
    for lang in ("SysY", "Spl"):
        g = setup(lang)
        c.units.add(g.file)
        items = list({(k, tuple(s)): None for k, s in sequences(lang, deep)})
        n = max(1, len(items) // 64)
        jobs += [(lang, items[i:i + n]) for i in range(0, len(items), n)]
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p:
        res = p.map(work, jobs, chunksize=1)
    tried = {}
    for lang, n, out in res:
        tried[lang] = tried.get(lang, 0) + n
        for key, ok, got, want in out:
            k = "%s/%s" % (lang, key)
            if ok is None:
                c.undec(k, got)
            else:
                c.expect(ok, k, GR[lang].file, "the sequence %s is parsed as %s instead of %s" % (key, got, want))
    for lang in ("SysY", "Spl"):
        spelling(c, lang)
        c.cov[lang] = {"token_sequences": tried[lang], "rules": len(GR[lang].auto.rules), "automaton_states": len(GR[lang].auto.action)}
    literals(c)
    c.floor(20000, "obligations")


if __name__ == "__main__":
    main("C04", "other", "trees the LALR automaton and its actions build for every pair of operators = trees C's grammar builds; flex rules choose C's token", body)
