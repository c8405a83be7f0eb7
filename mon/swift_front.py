"""Front end for the part of Swift the generator emits (and some more, so that it may be rewritten): tokens and a syntax tree.

Anything else raises Unsupported, and Swift is then left out of the run: it is never a verdict.
"""
import re


class Unsupported(Exception):
    pass


OPS = ["...", "..<", "===", "!==", "&<<", "&>>", "<<=", ">>=", "&&=", "->", "==", "!=", "<=", ">=", "&&", "||", "??", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "&+", "&-", "&*", "<<", ">>",
       "+", "-", "*", "/", "%", "<", ">", "=", "!", "?", "&", "|", "^", "~"]
TOK = re.compile(r"(?P<num>0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)|(?P<id>`[^`\n]+`|\$\d+|[^\W\d]\w*)|(?P<op>" + "|".join(re.escape(o) for o in OPS) + r")|(?P<p>[(){}\[\],:;.@#\\])")


class T:
    __slots__ = ("k", "s", "nl", "wb", "wa", "line", "parts")

    def __init__(self, k, s, nl, wb, line, parts=None):
        self.k, self.s, self.nl, self.wb, self.wa, self.line, self.parts = k, s, nl, wb, False, line, parts

    def __repr__(self):
        return f"{self.s!r}@{self.line}"


def tokenize(src):
    out = []
    i, n, line = 0, len(src), 1
    nl = wb = True
    while i < n:
        c = src[i]
        if c in " \t\r\n":
            if c == "\n":
                nl = True
                line += 1
            wb = True
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            wb = True
            continue
        if src.startswith("/*", i):
            d = 1
            i += 2
            while d:
                if i >= n:
                    raise Unsupported("unterminated comment")
                if src.startswith("/*", i):
                    d += 1
                    i += 2
                elif src.startswith("*/", i):
                    d -= 1
                    i += 2
                else:
                    if src[i] == "\n":
                        line += 1
                        nl = True
                    i += 1
            wb = True
            continue
        if out and wb:
            out[-1].wa = True
        if c == '"':
            if src.startswith('"""', i):
                raise Unsupported("multi-line string")
            parts, buf = [], []
            i += 1
            while True:
                if i >= n or src[i] == "\n":
                    raise Unsupported("string")
                if src[i] == '"':
                    i += 1
                    break
                if src[i] == "\\":
                    e = src[i + 1]
                    if e == "(":
                        d, j = 1, i + 2
                        while d:
                            d += {"(": 1, ")": -1}.get(src[j], 0)
                            j += 1
                        parts += ["".join(buf), ("expr", src[i + 2:j - 1])]
                        buf = []
                        i = j
                        continue
                    if e == "u":
                        m = re.match(r"\{([0-9a-fA-F]+)\}", src[i + 2:])
                        buf.append(chr(int(m.group(1), 16)))
                        i += 2 + m.end()
                        continue
                    if e not in 'ntr0"\'\\':
                        raise Unsupported("escape")
                    buf.append({"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(e, e))
                    i += 2
                    continue
                buf.append(src[i])
                i += 1
            parts.append("".join(buf))
            out.append(T("str", '"', nl, wb, line, parts))
        else:
            m = TOK.match(src, i)
            if not m:
                raise Unsupported(f"character {c!r} in line {line}")
            k = m.lastgroup
            s = m.group()
            if k == "num" and s[-1:] == "." :
                s = s[:-1]
            if k == "id" and s[0] == "`":
                out.append(T("id", s[1:-1], nl, wb, line, True))
            else:
                out.append(T(k, s, nl, wb, line))
            i += len(s)
        nl = wb = False
    if out:
        out[-1].wa = True
    e = T("eof", "<eof>", True, True, line)
    out.append(e)
    return out


MODS = {"public", "private", "internal", "fileprivate", "open", "final", "override", "required", "static", "class", "mutating", "nonmutating", "convenience", "lazy", "weak", "unowned", "indirect",
        "dynamic", "package", "nonisolated"}
PREC = {"<<": 9, ">>": 9, "&<<": 9, "&>>": 9, "*": 8, "/": 8, "%": 8, "&": 8, "&*": 8, "+": 7, "-": 7, "|": 7, "^": 7, "&+": 7, "&-": 7, "..<": 6, "...": 6, "??": 5,
        "==": 4, "!=": 4, "<": 4, ">": 4, "<=": 4, ">=": 4, "===": 4, "!==": 4, "&&": 3, "||": 2}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}


class Parser:
    def __init__(self, src):
        self.t = tokenize(src)
        self.i = 0
        self.notrail = 0

    # ---- helpers
    @property
    def c(self):
        return self.t[self.i]

    def la(self, n=1):
        return self.t[min(self.i + n, len(self.t) - 1)]

    def adv(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def at(self, s):
        return self.c.s == s and self.c.k in ("id", "p", "op") and self.c.parts is None

    def eat(self, s):
        if self.at(s):
            return self.adv()

    def need(self, s):
        if not self.at(s):
            raise Unsupported(f"line {self.c.line}: expected {s!r}, found {self.c.s!r}")
        return self.adv()

    def ident(self):
        if self.c.k != "id":
            raise Unsupported(f"line {self.c.line}: expected a name, found {self.c.s!r}")
        return self.adv().s

    # ---- types
    def type(self):
        while self.c.k == "id" and self.c.s in ("some", "any", "inout", "__owned", "borrowing", "consuming") or self.at("@"):
            if self.eat("@"):
                self.ident()
                continue
            self.adv()
        if self.eat("["):
            a = self.type()
            if self.eat(":"):
                b = self.type()
                self.need("]")
                t = ("dict", a, b)
            else:
                self.need("]")
                t = ("array", a)
        elif self.eat("("):
            el = []
            while not self.at(")"):
                if self.c.k == "id" and self.la().s == ":":
                    self.adv()
                    self.adv()
                elif self.c.k == "id" and self.la().k == "id" and self.la(2).s == ":":
                    self.adv(), self.adv(), self.adv()
                el.append(self.type())
                if not self.eat(","):
                    break
            self.need(")")
            t = el[0] if len(el) == 1 and not self.at("->") and not self.at("throws") else ("tuple", el)
        else:
            path = [self.ident()]
            args = []
            while True:
                if self.at("<"):
                    args = self.generic_args()
                elif self.at(".") and self.la().k == "id":
                    self.adv()
                    path.append(self.ident())
                else:
                    break
            t = ("name", tuple(path), tuple(args))
        while True:
            if (self.at("?") or self.at("!")) and not self.c.wb:
                self.adv()
                t = ("opt", t)
            elif self.at(".") and self.la().s in ("Type", "Protocol"):
                self.adv(), self.adv()
                t = ("meta", t)
            elif self.at("throws") or self.at("->"):
                self.eat("throws")
                self.need("->")
                self.type()
                t = ("func",)
            elif self.at("&") :
                self.adv()
                self.type()
                t = ("other",)
            else:
                return t

    def generic_args(self):
        self.need("<")
        a = [self.type()]
        while self.eat(","):
            a.append(self.type())
        if self.c.s == ">>":
            self.c.s = ">"
        else:
            self.need(">")
        return a

    def generics(self):
        g = []
        if self.eat("<"):
            while not self.at(">"):
                g.append(self.ident())
                if self.eat(":"):
                    self.type()
                if not self.eat(","):
                    break
            self.need(">")
        return g

    def where(self):
        w = []
        if self.eat("where"):
            while True:
                a = self.type()
                if self.eat(":"):
                    op = ":"
                else:
                    self.need("==")
                    op = "=="
                w.append((a, op, self.type()))
                if not self.eat(","):
                    return w
        return w

    # ---- declarations
    def module(self):
        out = []
        while self.c.k != "eof":
            if self.eat(";"):
                continue
            out.append(self.decl(True))
        return out

    def attrs(self):
        mods = set()
        while True:
            if self.at("@"):
                self.adv()
                self.ident()
                if self.at("(") and not self.c.wb:
                    d = 0
                    while True:
                        t = self.adv()
                        d += {"(": 1, ")": -1}.get(t.s, 0) if t.k == "p" else 0
                        if not d:
                            break
                continue
            if self.c.k == "id" and self.c.parts is None and self.c.s in MODS:
                nx = self.la()
                if self.c.s == "class" and not (nx.k == "id" and nx.s in MODS | {"func", "var", "let", "subscript"}):
                    break
                if nx.s == "(" and self.c.s in ("private", "public", "internal", "fileprivate", "unowned"):
                    self.adv(), self.adv(), self.ident(), self.need(")")
                    continue
                mods.add(self.adv().s)
                continue
            return mods

    def decl(self, top=False):
        mods = self.attrs()
        t = self.c
        if t.k != "id" or t.parts:
            raise Unsupported(f"line {t.line}: {t.s!r} where a declaration should be")
        k = t.s
        if k == "import":
            self.adv()
            self.ident()
            while self.eat("."):
                self.ident()
            return ("import",)
        if k in ("class", "struct", "enum", "protocol", "extension"):
            self.adv()
            if k == "extension":
                name = self.type()
            else:
                name = self.ident()
            gen = self.generics()
            if gen:
                raise Unsupported("generic type")
            inh = []
            if self.eat(":"):
                inh.append(self.type())
                while self.eat(","):
                    inh.append(self.type())
            w = self.where()
            self.need("{")
            ms = []
            while not self.at("}"):
                if self.eat(";"):
                    continue
                if self.at("case") and k == "enum":
                    self.adv()
                    while True:
                        n = self.ident()
                        if self.at("("):
                            raise Unsupported("enum payload")
                        raw = self.expr() if self.eat("=") else None
                        ms.append(("case", n, raw))
                        if not self.eat(","):
                            break
                    continue
                ms.append(self.decl())
            self.need("}")
            return ("ext", name, w, ms, inh) if k == "extension" else ("type", k, name, inh, ms, mods)
        if k == "func":
            self.adv()
            if self.c.k == "op":
                raise Unsupported("operator function")
            name = self.ident()
            gen = self.generics()
            ps = self.params()
            self.eat("async") and self.bad("async")
            self.eat("throws") or self.eat("rethrows")
            ret = self.type() if self.eat("->") else None
            self.where()
            body = self.block() if self.at("{") else None
            return ("func", name, gen, ps, ret, body, mods)
        if k == "init":
            self.adv()
            fail = bool((self.at("?") or self.at("!")) and self.adv())
            if self.at("<"):
                raise Unsupported("generic init")
            ps = self.params()
            self.eat("throws") or self.eat("rethrows")
            body = self.block() if self.at("{") else None
            return ("init", fail, ps, body, mods)
        if k in ("var", "let"):
            self.adv()
            return self.vardecl(k == "let", mods, True)
        if k == "typealias":
            self.adv()
            n = self.ident()
            self.need("=")
            return ("alias", n, self.type())
        if k == "deinit":
            self.adv()
            self.block()
            return ("import",)
        raise Unsupported(f"line {t.line}: declaration {k!r}")

    def bad(self, what):
        raise Unsupported(f"line {self.c.line}: {what}")

    def params(self):
        self.need("(")
        ps = []
        while not self.at(")"):
            while self.at("@"):
                self.adv(), self.ident()
            a = self.ident()
            label, name = a, a
            if self.c.k == "id":
                name = self.ident()
                label = a
            if label == "_":
                label = None
            self.need(":")
            inout = self.at("inout")
            ty = self.type()
            if self.at("..."):
                self.bad("variadic")
            d = self.expr() if self.eat("=") else None
            ps.append((label, name, ty, d, inout))
            if not self.eat(","):
                break
        self.need(")")
        return ps

    def vardecl(self, is_let, mods, member):
        items = []
        acc = None
        while True:
            if self.at("("):
                self.adv()
                pat = []
                while not self.at(")"):
                    pat.append(self.ident())
                    if not self.eat(","):
                        break
                self.need(")")
                pat = tuple(pat)
            else:
                pat = self.ident()
            ty = self.type() if self.eat(":") else None
            init = None
            if self.at("=") and self.adv():
                init = self.expr()
            if self.at("{") and init is None and not self.notrail:
                acc = self.accessors()
            items.append((pat, ty, init))
            if not self.eat(","):
                break
        return ("var", items, is_let, acc, mods)

    def accessors(self):
        if self.la().s in ("get", "set") and self.la(2).s in ("{", "(", "throws", "}", "set", "get"):
            self.need("{")
            g = s = None
            while not self.at("}"):
                n = self.ident()
                arg = "newValue"
                if self.eat("("):
                    arg = self.ident()
                    self.need(")")
                self.eat("throws")
                b = self.block() if self.at("{") else None
                if n == "get":
                    g = b
                elif n == "set":
                    s = (arg, b)
                else:
                    self.bad("accessor " + n)
            self.need("}")
            return (g, s)
        if self.la().s in ("willSet", "didSet"):
            self.bad("observer")
        return (self.block(), None)

    # ---- statements
    def block(self):
        self.need("{")
        save, self.notrail = self.notrail, 0
        out = []
        while not self.at("}"):
            if self.eat(";"):
                continue
            if self.c.k == "eof":
                self.bad("end of file")
            out.append(self.stmt())
        self.need("}")
        self.notrail = save
        return out

    def conds(self):
        out = []
        self.notrail += 1
        while True:
            if self.c.k == "id" and self.c.s in ("let", "var") and self.c.parts is None:
                self.adv()
                n = self.ident()
                ty = self.type() if self.eat(":") else None
                e = self.expr() if self.eat("=") else ("id", n)
                out.append(("let", n, ty, e))
            elif self.at("case") or self.at("#"):
                self.bad("pattern condition")
            else:
                out.append(("expr", self.expr()))
            if not self.eat(","):
                break
        self.notrail -= 1
        return out

    def stmt(self):
        t = self.c
        if t.k == "id" and t.parts is None:
            s = t.s
            if s in ("let", "var"):
                self.adv()
                return self.vardecl(s == "let", set(), False)
            if s in ("func", "struct", "class", "enum") or (s in MODS and self.la().k == "id") or (s == "typealias"):
                return ("decl", self.decl())
            if s == "if":
                return self.if_()
            if s == "guard":
                self.adv()
                c = self.conds()
                self.need("else")
                return ("guard", c, self.block())
            if s == "while":
                self.adv()
                c = self.conds()
                return ("while", c, self.block())
            if s == "repeat":
                self.adv()
                b = self.block()
                self.need("while")
                return ("repeat", b, self.expr())
            if s == "for":
                self.adv()
                if self.at("case"):
                    self.bad("for case")
                self.eat("var") or self.eat("let")
                if self.eat("("):
                    pat = []
                    while not self.at(")"):
                        pat.append(self.ident())
                        if not self.eat(","):
                            break
                    self.need(")")
                    pat = tuple(pat)
                else:
                    pat = self.ident()
                if self.eat(":"):
                    self.type()
                self.need("in")
                self.notrail += 1
                e = self.expr()
                w = self.expr() if self.eat("where") else None
                self.notrail -= 1
                return ("for", pat, e, w, self.block())
            if s == "switch":
                return self.switch()
            if s == "return":
                self.adv()
                if self.at("}") or self.at(";") or (self.c.nl and not self.c.k == "op") or self.at("case") or self.at("default"):
                    return ("return", None)
                return ("return", self.expr())
            if s == "throw":
                self.adv()
                return ("throw", self.expr())
            if s in ("break", "continue"):
                self.adv()
                if self.c.k == "id" and not self.c.nl:
                    self.bad("labelled " + s)
                return (s,)
            if s == "fallthrough":
                self.bad("fallthrough")
            if s == "do":
                self.adv()
                b = self.block()
                cs = []
                while self.eat("catch"):
                    pat = None
                    if not self.at("{"):
                        self.notrail += 1
                        if self.eat("let"):
                            n = self.ident()
                            pat = ("bind", n, self.type() if self.eat("as") else None)
                        else:
                            pat = ("val", [self.expr()])
                            while self.eat(","):
                                pat[1].append(self.expr())
                        self.notrail -= 1
                    cs.append((pat, self.block()))
                return ("do", b, cs)
            if s == "defer":
                self.adv()
                return ("defer", self.block())
            if self.la().s == ":" and self.la(2).s in ("for", "while", "repeat", "switch"):
                self.bad("label")
        e = self.expr()
        if self.c.k == "op" and self.c.s in ASSIGN:
            op = self.adv().s
            return ("assign", op, e, self.expr())
        return ("expr", e)

    def if_(self):
        self.need("if")
        c = self.conds()
        b = self.block()
        e = None
        if self.eat("else"):
            e = [self.if_()] if self.at("if") else self.block()
        return ("if", c, b, e)

    def switch(self):
        self.need("switch")
        self.notrail += 1
        e = self.expr()
        self.notrail -= 1
        self.need("{")
        cases = []
        while not self.at("}"):
            if self.eat("@"):
                self.ident()
            if self.eat("default"):
                pats = None
            else:
                self.need("case")
                pats = []
                while True:
                    if self.at("let") or self.at("var") or self.at("is"):
                        self.bad("pattern")
                    pats.append(self.expr())
                    if self.at("where"):
                        self.bad("where")
                    if not self.eat(","):
                        break
            self.need(":")
            save, self.notrail = self.notrail, 0
            b = []
            while not (self.at("case") or self.at("default") or self.at("}") or self.at("@")):
                if self.eat(";"):
                    continue
                b.append(self.stmt())
            self.notrail = save
            cases.append((pats, b))
        self.need("}")
        return ("switch", e, cases)

    # ---- expressions
    def expr(self):
        e = self.binary(2)
        if self.at("?") and self.c.wb and self.c.wa:
            self.adv()
            a = self.expr()
            self.need(":")
            b = self.expr()
            return ("tern", e, a, b)
        return e

    def isbin(self):
        t = self.c
        if t.k != "op" or t.s not in PREC:
            return False
        before, after = t.wb or t.nl, t.wa or self.la().nl
        if t.nl and not after:
            return False
        return before == after or (not before and after)

    def binary(self, p):
        a = self.unary()
        while True:
            t = self.c
            if t.k == "id" and t.parts is None and t.s in ("as", "is"):
                self.adv()
                if t.s == "is":
                    a = ("is", a, self.type())
                    continue
                kind = ""
                if (self.at("?") or self.at("!")) and not self.c.wb:
                    kind = self.adv().s
                a = ("as", kind, a, self.type())
                continue
            if t.k == "op" and t.s in ("...",) and not t.wb and (self.la().s in (")", "]") ):
                self.adv()
                a = ("range", "...", a, None)
                continue
            if not self.isbin() or PREC[t.s] < p:
                return a
            q = PREC[t.s]
            self.adv()
            b = self.binary(q if t.s == "??" else q + 1)
            a = ("range", t.s, a, b) if t.s in ("..<", "...") else ("bin", t.s, a, b)

    def unary(self):
        t = self.c
        if t.k == "id" and t.parts is None and t.s in ("try", "await"):
            self.adv()
            if t.s == "await":
                self.bad("await")
            kind = ""
            if (self.at("?") or self.at("!")) and not self.c.wb:
                kind = self.adv().s
            return ("try", kind, self.expr())
        if t.k == "op":
            if t.s in ("-", "+", "!", "~"):
                self.adv()
                return ("unary", t.s, self.unary())
            if t.s == "&":
                self.adv()
                return ("inout", self.unary())
            if t.s in ("..<", "..."):
                self.adv()
                return ("range", t.s, None, self.binary(7))
            self.bad(f"operator {t.s}")
        return self.postfix()

    def postfix(self):
        e = self.primary()
        chain = False
        while True:
            t = self.c
            if t.s == "." and t.k == "p" and (self.la().k in ("id", "num")):
                self.adv()
                n = self.adv().s
                if n == "self":
                    continue
                g = None
                if self.at("<") and not self.c.wb:
                    g = self.try_generic()
                e = ("member", e, n, g)
            elif t.s == "(" and t.k == "p" and not t.nl:
                if t.wb and not (t.k == "p" and not t.nl and e[0] in ("id", "member") and False):
                    break
                args = self.args()
                e = ("call", e, args)
                if self.at("{") and not self.notrail and not self.c.nl:
                    e = ("call", e[1], args + [(None, self.closure())])
            elif t.s == "[" and t.k == "p" and not t.nl and not t.wb:
                self.adv()
                save, self.notrail = self.notrail, 0
                ix = []
                while not self.at("]"):
                    lab = None
                    if self.c.k == "id" and self.la().s == ":" :
                        lab = self.ident()
                        self.adv()
                    ix.append((lab, self.expr()))
                    if not self.eat(","):
                        break
                self.need("]")
                self.notrail = save
                e = ("index", e, ix)
            elif t.s == "{" and t.k == "p" and not self.notrail and not t.nl and e[0] in ("id", "member"):
                e = ("call", e, [(None, self.closure())])
            elif t.s == "!" and t.k == "op" and not t.wb:
                self.adv()
                e = ("force", e)
            elif t.s == "?" and t.k == "op" and not t.wb and self.la().s in (".", "[", "("):
                self.adv()
                e = ("optc", e)
                chain = True
            else:
                break
        return ("optwrap", e) if chain else e

    def args(self):
        self.need("(")
        save, self.notrail = self.notrail, 0
        a = []
        while not self.at(")"):
            lab = None
            if self.c.k == "id" and self.la().s == ":" and self.la().k == "p":
                lab = self.ident()
                self.adv()
            a.append((lab, self.expr()))
            if not self.eat(","):
                break
        self.need(")")
        self.notrail = save
        return a

    def try_generic(self):
        i = self.i
        try:
            g = self.generic_args()
            if self.c.s in (".", "(", ")", ",", "]") and not self.c.wb:
                return g
        except Unsupported:
            pass
        self.i = i
        return None

    def primary(self):
        t = self.c
        if t.k == "num":
            self.adv()
            s = t.s.replace("_", "")
            if s[:2] in ("0x", "0b", "0o"):
                return ("int", int(s, 0))
            return ("float", float(s)) if "." in s or "e" in s.lower() else ("int", int(s))
        if t.k == "str":
            self.adv()
            parts = []
            for p in t.parts:
                parts.append(p if isinstance(p, str) else Parser(p[1]).expr())
            return ("str", parts)
        if t.s == "(" and t.k == "p":
            self.adv()
            save, self.notrail = self.notrail, 0
            el = []
            while not self.at(")"):
                if self.c.k == "id" and self.la().s == ":" and self.la().k == "p":
                    self.bad("labelled tuple")
                el.append(self.expr())
                if not self.eat(","):
                    break
            self.need(")")
            self.notrail = save
            return ("paren", el[0]) if len(el) == 1 else ("tuple", el)
        if t.s == "[" and t.k == "p":
            # [T]() / [T].self / [a, b] / [k: v]
            i = self.i
            try:
                ty = self.type()
                if self.c.s == "(" and not self.c.wb or self.c.s == "." and not self.c.nl:
                    return ("typeexpr", ty)
            except Unsupported:
                pass
            self.i = i
            self.adv()
            save, self.notrail = self.notrail, 0
            el, pairs = [], []
            if self.at(":"):
                self.adv()
                self.need("]")
                self.notrail = save
                return ("dictlit", [])
            while not self.at("]"):
                a = self.expr()
                if self.eat(":"):
                    pairs.append((a, self.expr()))
                else:
                    el.append(a)
                if not self.eat(","):
                    break
            self.need("]")
            self.notrail = save
            return ("dictlit", pairs) if pairs else ("array", el)
        if t.s == "{" and t.k == "p":
            return self.closure()
        if t.s == "." and t.k == "p":
            self.adv()
            return ("implicit", self.ident())
        if t.k == "id":
            self.adv()
            if t.parts is None:
                if t.s in ("true", "false"):
                    return ("bool", t.s == "true")
                if t.s == "nil":
                    return ("nil",)
                if t.s in ("if", "switch", "case", "func", "in", "else", "is", "as", "where", "while", "for", "do", "catch", "throw"):
                    self.i -= 1
                    self.bad(f"{t.s!r} in an expression")
            g = None
            if self.at("<") and not self.c.wb:
                g = self.try_generic()
            return ("id", t.s, g)
        self.bad(f"{t.s!r} in an expression")

    def closure(self):
        self.need("{")
        save, self.notrail = self.notrail, 0
        i = self.i
        ps = None
        try:
            ps = self.closure_head()
        except Unsupported:
            ps = None
        if ps is None:
            self.i = i
        body = []
        while not self.at("}"):
            if self.eat(";"):
                continue
            body.append(self.stmt())
        self.need("}")
        self.notrail = save
        return ("closure", ps, body)

    def closure_head(self):
        ps = []
        if self.at("["):
            d = 0
            while True:
                t = self.adv()
                d += {"[": 1, "]": -1}.get(t.s, 0)
                if not d:
                    break
        if self.eat("("):
            while not self.at(")"):
                n = self.ident()
                if self.c.k == "id":
                    n = self.ident()
                ty = self.type() if self.eat(":") else None
                ps.append((n, ty))
                if not self.eat(","):
                    break
            self.need(")")
        else:
            while True:
                ps.append((self.ident(), None))
                if not self.eat(","):
                    break
        self.eat("throws")
        if self.eat("->"):
            self.type()
        self.need("in")
        return ps
