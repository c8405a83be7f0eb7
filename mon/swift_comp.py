"""Swift syntax tree -> Python source, run on swift_rt."""
import keyword
from .swift_front import Parser, Unsupported
from . import swift_rt as rt
from .swift_rt import CompileError

HOSTF = {n[2:] for n in dir(rt) if n.startswith("f_")}
HOSTFN = {n.split("__")[0] for n in HOSTF}
BUILTIN_INH = {"Error", "Equatable", "Hashable", "Codable", "Sendable", "CaseIterable", "CustomStringConvertible", "Comparable", "AnyObject", "RawRepresentable", "Decodable", "Encodable", "LocalizedError"}


def mangle(name, labels):
    return f"m_{name}__" + "_".join(l or "0" for l in labels)


class Ty:
    def __init__(self, path, kind, node, parent):
        self.path, self.kind, self.node, self.parent = path, kind, node, parent
        self.py = "T_" + "_".join(path)
        self.props, self.sprops, self.methods, self.smethods, self.inits = {}, {}, {}, {}, {}
        self.base = None
        self.types = {}
        self.lets = set()
        self.extra = []
        self.cases = []
        self.raw = None


class Fn:
    """a Python function being written"""
    def __init__(self, parent, self_ty, static):
        self.parent, self.self_ty, self.static = parent, self_ty, static
        self.lines = []
        self.ind = 1
        self.scopes = [{}]
        self.owned = set()
        self.nonlocals = set()
        self.ret = None

    def w(self, s):
        self.lines.append("    " * self.ind + s)


class Compiler:
    def __init__(self, src):
        self.mod = Parser(src).module()
        self.top = {}
        self.gfuncs = {}
        self.gvars = {}
        self.order = []
        self.ext = {}            # host type name -> {member name}
        self.aliases = {}
        self.n = 0
        self.consts = []
        self.cocache = {}
        self.tvars = []
        self.out = []
        self.fn = None
        self.tail = []
        self.methods = {}

    def uid(self, s=""):
        self.n += 1
        return f"{s}{self.n}"

    # ---- phase 1: what is declared
    def declare(self, ds, parent, table, path):
        for d in ds:
            if d[0] == "type":
                t = Ty(path + (d[2],), d[1], d, parent)
                if d[2] in table:
                    raise CompileError(f"invalid redeclaration of '{d[2]}'")
                table[d[2]] = t
                self.order.append(t)
                self.declare(d[4], t, t.types, t.path)
            elif d[0] == "alias":
                self.aliases[d[1]] = d[2]

    def members(self, t, ms):
        seen = set()
        for m in ms:
            if m[0] == "case":
                if m[1] in seen:
                    raise CompileError(f"invalid redeclaration of '{m[1]}'")
                seen.add(m[1])
                t.cases.append(m)
                t.sprops[m[1]] = m
            elif m[0] == "var":
                stat = bool(m[4] & {"static", "class"})
                for pat, ty, init in m[1]:
                    if not isinstance(pat, str):
                        raise Unsupported("tuple member")
                    tb = t.sprops if stat else t.props
                    if pat in tb or pat in seen:
                        raise CompileError(f"invalid redeclaration of '{pat}'")
                    tb[pat] = (m, ty, init)
            elif m[0] == "func":
                stat = bool(m[6] & {"static", "class"})
                (t.smethods if stat else t.methods).setdefault(m[1], []).append(m)
            elif m[0] == "init":
                t.inits.setdefault(tuple(p[0] for p in m[2]), m)

    def host(self, name):
        return "rt.TYPES[%r]" % name if name in rt.TYPES else None

    def find(self, path, scope):
        """user type for a dotted path seen from inside scope"""
        s = scope
        while True:
            table = s.types if s else self.top
            if path[0] in table:
                t = table[path[0]]
                for p in path[1:]:
                    if p not in t.types:
                        return None
                    t = t.types[p]
                return t
            if s and s.path[-1] == path[0] and len(path) == 1:
                return s
            if s is None:
                return None
            s = s.parent

    def scope(self):
        return self.cur

    def typ(self, ty, scope=None):
        """-> Python expression of the type object"""
        scope = scope or self.cur
        if ty[0] == "name":
            path = ty[1]
            for tv in reversed(self.tvars):
                if path == (tv[0],):
                    return tv[1]
            if path == ("Self",):
                return self.selftype()
            t = self.find(path, scope)
            if t:
                return t.py
            if len(path) == 1 and path[0] in self.aliases:
                return self.typ(self.aliases[path[0]], scope)
            if path[0] in ("Swift", "Foundation") and len(path) > 1:
                path = path[1:]
            if path == ("String", "Encoding"):
                return "rt.Encoding"
            if path == ("MemoryLayout",) and ty[2]:
                return f"rt.MemLayout({self.typ(ty[2][0], scope)})"
            if len(path) == 1 and self.host(path[0]):
                return self.host(path[0])
            raise Unsupported(f"type {'.'.join(path)}")
        if ty[0] == "array":
            return "rt.SwArray"
        if ty[0] == "dict":
            return "rt.SwDict"
        if ty[0] == "opt":
            return self.typ(ty[1], scope)
        raise Unsupported(f"type {ty[0]}")

    def selftype(self):
        f = self.fn
        while f:
            if f.self_ty:
                return "self" if f.static else "type(self)"
            f = f.parent
        raise Unsupported("Self")

    def coexpr(self, ty, scope=None):
        """-> Python expression of a function that coerces to the declared type, or None"""
        if ty is None:
            return None
        if ty[0] == "opt":
            c = self.coexpr(ty[1], scope)
            return f"rt.co_opt({c})" if c else None
        if ty[0] == "array":
            c = self.coexpr(ty[1], scope)
            return f"rt.co_array({c or 'rt.ident'})"
        if ty[0] == "name":
            if ty[1] == ("Array",) and ty[2]:
                return self.coexpr(("array", ty[2][0]), scope)
            if ty[1] == ("Optional",) and ty[2]:
                return self.coexpr(("opt", ty[2][0]), scope)
            if ty[1] in (("Void",), ("Any",), ("AnyObject",), ("Self",), ("Error",), ("CodingKey",)) and not self.find(ty[1], scope or self.cur):
                return None
            try:
                t = self.typ(ty, scope)
            except Unsupported:
                return None
            if t in ("rt.SwArray", "rt.SwDict") or t.startswith("rt.MemLayout") or t in ("rt.TYPES['Array']", "rt.TYPES['Dictionary']", "rt.TYPES['UTF8']"):
                return None
            return t + ".co"
        return None

    def co(self, ty, e, scope=None):
        c = self.coexpr(ty, scope)
        if not c:
            return e
        if "co_" in c:
            if c not in self.cocache:
                self.cocache[c] = f"_co{len(self.cocache)}"
            if any(tv[1] in c for tv in self.tvars) or "self" in c:
                return f"{c}({e})"
            return f"{self.cocache[c]}({e})"
        return f"{c}({e})"

    # ---- phase 2: code
    def compile(self):
        self.cur = None
        self.declare(self.mod, None, self.top, ())
        for t in self.order:
            self.members(t, t.node[4])
        for t in self.order:
            for i in t.node[3]:
                if i[0] != "name":
                    raise Unsupported("inheritance")
                u = self.find(i[1], t.parent)
                if u:
                    if t.base:
                        raise Unsupported("several bases")
                    t.base = u
                elif t.kind == "enum" and i[1][0] in rt.TYPES:
                    t.raw = i
                elif i[1][-1] not in BUILTIN_INH:
                    raise Unsupported(f"inherits {i[1]}")
        exts = []
        for d in self.mod:
            if d[0] == "ext":
                name = d[1]
                if name[0] == "array":
                    name = ("name", ("Array",), (name[1],))
                u = self.find(name[1], None)
                if u:
                    u.extra += d[3]
                    self.declare([m for m in d[3] if m[0] == "type"], u, u.types, u.path)
                    self.members(u, [m for m in d[3] if m[0] != "type"])
                elif len(name[1]) == 1 and self.host(name[1][0]):
                    exts.append((name[1][0], d))
                    for m in d[3]:
                        if m[0] == "func":
                            self.ext.setdefault(m[1], set()).add(name[1][0])
                        elif m[0] == "var":
                            for it in m[1]:
                                self.ext.setdefault(it[0], set()).add(name[1][0])
                        else:
                            raise Unsupported("extension of a host type")
                else:
                    raise Unsupported("extension of an unknown type")
            elif d[0] == "func":
                self.gfuncs.setdefault(d[1], []).append(d)
            elif d[0] == "var":
                for pat, ty, init in d[1]:
                    self.gvars[pat] = f"g_{pat}"
        done = set()

        def emit(t):
            if t.py in done:
                return
            done.add(t.py)
            if t.base:
                emit(t.base)
            self.emit_type(t)
        for t in list(self.order):
            emit(t)
        for d in self.mod:
            if d[0] == "func":
                pass
        for name, ds in self.gfuncs.items():
            for d in ds:
                for l in self.func(d, None, False, f"gf_{name}__", None):
                    self.out.append(l)
        for host, d in exts:
            h = Ty(("ext " + host,), "struct", None, None)
            h.py = self.host(host)
            self.hostext = h
            self.members(h, d[3])
            for m in d[3]:
                if m[0] == "func":
                    if m[6] & {"static", "class"}:
                        raise Unsupported("static extension of a host type")
                    for l in self.func(m, h, False, f"x_{m[1]}__", None):
                        self.out.append(l)
                else:
                    for pat, ty, init in m[1]:
                        if not m[3]:
                            raise Unsupported("stored property in an extension")
                        for l in self.body_func(f"xp_{pat}", [], m[3][0], ty, h, False):
                            self.out.append(l)
        for d in self.mod:
            if d[0] == "var":
                self.static_var(None, d)
        cos = [f"{v} = {k}" for k, v in self.cocache.items()]
        return "\n".join(["from mon import swift_rt as rt"] + self.out + cos + self.tail) + "\n"

    def static_var(self, t, d):
        self.cur = t
        for pat, ty, init in d[1]:
            if d[3] or init is None:
                raise Unsupported("global computed property")
            f = self.fn = Fn(None, t, True)
            e = self.co(ty, self.val(init)) if ty else f"rt.deflt({self.val(init)})"
            n = self.uid("_sv")
            self.out += [f"def {n}(self=None):"] + f.lines + [f"    return {e}"]
            self.tail.append(f"{t.py + '.p_' + pat if t else 'g_' + pat} = {n}()")
            self.fn = None

    def emit_type(self, t):
        self.cur = t
        ms = [m for m in t.node[4] if m[0] != "type"] + [m for m in t.extra if m[0] != "type"]
        base = t.base.py if t.base else {"struct": "rt.SwStruct", "class": "rt.SwClass", "enum": "rt.SwEnum", "protocol": "object"}[t.kind]
        if t.kind == "struct" and t.base:
            base += ", rt.SwStruct"
        body = []
        ini = []
        explicit_init = any(m[0] == "init" for m in t.node[4])
        stored = []
        meths = {}
        for m in ms:
            if m[0] == "var":
                if m[4] & {"static", "class"}:
                    continue
                for pat, ty, init in m[1]:
                    if m[3]:
                        g, s = m[3]
                        if g is None:
                            continue
                        gl = self.body_func(f"_get_{pat}", [], g, ty, t, False)
                        body += gl
                        if s:
                            body += self.body_func(f"_set_{pat}", [(None, s[0], ty, None, False)], s[1], None, t, False)
                        body.append(f"p_{pat} = property(_get_{pat}{', _set_' + pat if s else ''})")
                    elif t.kind == "protocol":
                        continue
                    else:
                        if "lazy" in m[4]:
                            raise Unsupported("lazy")
                        stored.append((pat, ty, init, m[2]))
                        f = self.fn = Fn(None, t, False)
                        if init is not None:
                            e = self.co(ty, self.val(init)) if ty else f"rt.deflt({self.val(init)})"
                            ini += f.lines + [f"    self.p_{pat} = {e}"]
                        elif ty and ty[0] == "opt":
                            ini.append(f"    self.p_{pat} = None")
                        if m[2] and init is not None:
                            t.lets.add(pat)
                        self.fn = None
            elif m[0] == "func":
                if m[5] is None:
                    continue
                stat = bool(m[6] & {"static", "class"})
                key = (mangle(m[1], [p[0] for p in m[3]]), stat)
                meths.setdefault(key, []).append(m)
            elif m[0] == "init":
                if t.kind == "enum":
                    raise Unsupported("enum init")
                labels = [p[0] for p in m[2]]
                if m[3] is None:
                    continue
                nm = "i__" + "_".join(l or "0" for l in labels)
                body += self.body_func(nm, m[2], m[3], None, t, False, init=True)
                body += [f"c{nm[1:]} = classmethod(lambda cls, *a: rt.make(cls, {nm!r}, *a))"]
                for om in self.omissions(m[2]):
                    body += self.omitted(nm, "i__", m[2], om, t)
                    on = "i__" + "_".join(p[0] or "0" for p in om)
                    body += [f"c{on[1:]} = classmethod(lambda cls, *a: rt.make(cls, {on!r}, *a))"]
        for (key, stat), fs in meths.items():
            names = []
            for i, m in enumerate(fs):
                nm = f"_{key}_{i}" if len(fs) > 1 else key
                body += self.func(m, t, stat, None, nm)
                names.append(nm)
            if len(fs) > 1:
                if stat:
                    raise Unsupported("static overload")
                cs = [f"(({''.join((self.coexpr(p[2]) or 'rt.ident') + ', ' for p in m[3])}), {n})" for m, n in zip(fs, names)]
                body.append(f"{key} = rt.overload([{', '.join(cs)}])" if False else f"{key} = None")
                self.tail.append(f"{t.py}.{key} = rt.overload([{', '.join(c.replace(n + ')', t.py + '.' + n + ')') for c, n in zip(cs, names)) }])")
        if t.kind == "struct" and not explicit_init and stored:
            for sub in [stored, [s for s in stored if s[2] is None and not (s[1] and s[1][0] == "opt")]]:
                nm = "i__" + "_".join(s[0] for s in sub)
                if sub:
                    body += [f"def {nm}(self, {', '.join('a_' + s[0] for s in sub)}):"] + [f"    self.p_{s[0]} = {self.co(s[1], 'rt.cp(a_' + s[0] + ')')}" for s in sub]
                    body += [f"c{nm[1:]} = classmethod(lambda cls, *a: rt.make(cls, {nm!r}, *a))"]
        self.out.append(f"class {t.py}({base}):")
        o = [f"    _sw = {'.'.join(t.path)!r}"]
        if t.kind == "enum":
            o += ["    _cases = []"]
        if t.kind in ("struct", "class"):
            o += ["    def _fields(self):"] + (["        super()._fields()"] if t.base and t.base.kind == "class" else ["        pass"]) + ["    " + l for l in ini]
        self.out += o + ["    " + l for l in body]
        if t.kind == "enum" and t.cases:
            if t.raw:
                self.out.append(f"{t.py}._raw = {self.typ(t.raw)}")
            nxt, seen = 0, set()
            for _, n, raw in t.cases:
                if t.raw:
                    if raw is None:
                        r = nxt
                        e = f"{self.typ(t.raw)}.co({r})" if t.raw[1] != ("String",) else f"rt.Str({n!r})"
                    else:
                        r = self.constant(raw)
                        e = f"{self.typ(t.raw)}.co({r!r})" if not isinstance(r, str) else f"rt.Str({r!r})"
                    if isinstance(r, int):
                        if r in seen:
                            raise CompileError(f"raw value {r} of case {n} is not unique")
                        seen.add(r)
                        nxt = r + 1
                else:
                    if raw is not None:
                        raise CompileError("raw value without a raw type")
                    e = "None"
                self.out.append(f"{t.py}._case({n!r}, {e})")
            self.out.append(f"{t.py}.p_allCases = rt.SwArray({t.py}._cases)")
        for m in ms:
            if m[0] == "var" and m[4] & {"static", "class"}:
                if m[3]:
                    raise Unsupported("static computed property")
                self.static_var(t, m)
                self.cur = t

    def constant(self, e):
        if e[0] == "int":
            return e[1]
        if e[0] == "unary" and e[1] == "-" and e[2][0] == "int":
            return -e[2][1]
        if e[0] == "str" and len(e[1]) == 1:
            return e[1][0]
        raise Unsupported("raw value")

    # ---- functions
    def omissions(self, ps):
        d = [i for i, p in enumerate(ps) if p[3] is not None]
        if len(d) > 4:
            raise Unsupported("many defaults")
        out = []
        for mask in range(1, 1 << len(d)):
            drop = {d[i] for i in range(len(d)) if mask >> i & 1}
            out.append([p for i, p in enumerate(ps) if i not in drop])
        return out

    def omitted(self, full, prefix, ps, keep, t, static=False):
        nm = prefix + "_".join(p[0] or "0" for p in keep)
        kept = {id(p) for p in keep}
        args = []
        f = self.fn = Fn(None, t, static)
        for i, p in enumerate(ps):
            args.append(f"a{i}" if id(p) in kept else self.val(p[3]))
        pre = f.lines
        self.fn = None
        sig = ", ".join((["self"] if t else []) + [f"a{i}" for i, p in enumerate(ps) if id(p) in kept])
        call = f"self.{full}" if t and not t.path[0].startswith("ext ") else full
        if call == full and t:
            args = ["self"] + args
        return (["@classmethod"] if static else []) + [f"def {nm}({sig}):"] + pre + [f"    return {call}({', '.join(args)})"]

    def func(self, m, t, stat, prefix, name):
        _, n, gen, ps, ret, body, mods = m
        nm = name or (prefix + "_".join(p[0] or "0" for p in ps))
        lines = self.body_func(nm, ps, body, ret, t, stat, gen=gen)
        pf = prefix or mangle(n, [])
        if name is None or name == mangle(n, [p[0] for p in ps]):
            for om in self.omissions(ps):
                lines += self.omitted(nm, pf, ps, om, t, stat)
        return lines

    def body_func(self, nm, ps, body, ret, t, stat, init=False, gen=()):
        self.cur = t if t and not t.path[0].startswith("ext ") else None
        f = self.fn = Fn(None, t, stat)
        f.ret = ret if ret and ret[0] != "name" or ret and ret[1] not in (("Void",), ("Self",)) else None
        f.is_init = init
        sig = ["self"] if t else []
        tv = len(self.tvars)
        pre = []
        for i, (label, name, ty, d, inout) in enumerate(ps):
            py = self.local(name, ty, let=True)
            sig.append(py)
            if inout:
                f.scopes[-1][name] = ("ref", py)
            else:
                if ty[0] == "meta" and ty[1][0] == "name" and ty[1][1][0] in gen:
                    self.tvars.append((ty[1][1][0], py))
                elif ty[0] == "name" and ty[1][0] in gen:
                    if not any(v[0] == ty[1][0] for v in self.tvars[tv:]):
                        pre.append(f"    TV_{ty[1][0]} = type({py} if type({py}) is not int else rt.Int._mk({py}))")
                        self.tvars.append((ty[1][0], f"TV_{ty[1][0]}"))
                    pre.append(f"    {py} = {self.co(ty, py)}")
                else:
                    c = self.co(ty, py)
                    if c != py:
                        pre.append(f"    {py} = {c}")
        if any(g not in [v[0] for v in self.tvars[tv:]] for g in gen):
            raise Unsupported("generic by result")
        f.scopes.append({})
        if len(body) == 1 and body[0][0] == "expr" and f.ret:
            body = [("return", body[0][1])]
        self.block(body)
        out = (["@classmethod"] if stat else []) + [f"def {nm}({', '.join(sig)}):"] + pre + f.lines + ["    pass"]
        del self.tvars[tv:]
        self.fn = None
        return out

    def local(self, name, ty=None, let=False):
        f = self.fn
        if name in f.scopes[-1] and name != "_":
            raise CompileError(f"invalid redeclaration of '{name}'")
        py = self.uid("v_" + ("".join(c if c.isalnum() else "_" for c in name)) + "_")
        f.scopes[-1][name] = ("let" if let else "var", py, ty)
        f.owned.add(py)
        return py

    def lookup(self, name):
        f = self.fn
        while f:
            for s in reversed(f.scopes):
                if name in s:
                    return s[name], f
            f = f.parent
        return None, None

    def owner(self):
        f = self.fn
        while f.parent:
            f = f.parent
        return f

    def block(self, ss):
        self.fn.scopes.append({})
        # functions declared inside may refer to what comes later: not supported
        for s in ss:
            self.stmt(s)
        self.fn.scopes.pop()

    def sub(self, ss):
        self.fn.ind += 1
        self.block(ss)
        self.fn.w("pass")
        self.fn.ind -= 1

    def stmt(self, s):
        f = self.fn
        w = f.w
        k = s[0]
        if k == "expr":
            if s[1][0] == "closure":
                raise Unsupported("closure as a statement")
            w(self.ex(s[1]))
        elif k == "var":
            if s[3]:
                raise Unsupported("computed local")
            for pat, ty, init in s[1]:
                if isinstance(pat, tuple):
                    e = self.val(init)
                    ns = [self.local(p) if p != "_" else "_" for p in pat]
                    w(f"{', '.join(ns)} = {e}")
                    continue
                if init is None:
                    py = self.local(pat, ty)
                    w(f"{py} = None")
                    continue
                e = self.val(init)
                e = self.co(ty, e) if ty else f"rt.deflt({e})"
                py = self.local(pat, ty, let=s[2]) if pat != "_" else "_"
                w(f"{py} = {e}")
        elif k == "assign":
            self.assign(s[1], s[2], s[3])
        elif k == "if":
            self.if_(s)
        elif k == "guard":
            for c in s[1]:
                if c[0] == "let":
                    e = self.val(c[3])
                    py = self.local(c[1], c[2], let=True)
                    w(f"{py} = {e}")
                    w(f"if {py} is None:")
                else:
                    w(f"if not rt.cond({self.ex(c[1])}):")
                self.sub(s[2])
        elif k == "while":
            w("while True:")
            f.ind += 1
            f.scopes.append({})
            for c in s[1]:
                if c[0] == "let":
                    e = self.val(c[3])
                    py = self.local(c[1], c[2], let=True)
                    w(f"{py} = {e}")
                    w(f"if {py} is None: break")
                else:
                    w(f"if not rt.cond({self.ex(c[1])}): break")
            self.inloop(s[2])
            f.scopes.pop()
            f.ind -= 1
        elif k == "repeat":
            first = self.uid("first")
            w(f"{first} = True")
            w("while True:")
            f.ind += 1
            w(f"if not {first}:")
            f.ind += 1
            w(f"if not rt.cond({self.ex(s[2])}): break")
            f.ind -= 1
            w(f"{first} = False")
            self.inloop(s[1])
            f.ind -= 1
        elif k == "for":
            e = self.ex(s[2])
            f.scopes.append({})
            if isinstance(s[1], tuple):
                pat = ", ".join(self.local(p, let=True) if p != "_" else "_" for p in s[1])
            else:
                pat = self.local(s[1], let=True) if s[1] != "_" else "_"
            it = e if s[2][0] == "range" else f"rt_iter({e})"
            w(f"for {pat} in {it}:")
            f.ind += 1
            if s[3]:
                w(f"if not rt.cond({self.ex(s[3])}): continue")
            self.inloop(s[4])
            f.ind -= 1
            f.scopes.pop()
        elif k == "switch":
            v = self.uid("sw")
            w(f"{v} = {self.ex(s[1])}")
            kw = "if"
            had = False
            brk = any(self.has_break(b) for _, b in s[2])
            if brk:
                w("while True:")
                f.ind += 1
                f.loop = f.__dict__.get("loop", 0)
            for pats, b in s[2]:
                if pats is None:
                    had = True
                    if kw == "if":
                        w("if True:")
                    else:
                        w("else:")
                else:
                    cs = []
                    for p in pats:
                        n0 = len(f.lines)
                        e = self.ex(p)
                        if len(f.lines) != n0:
                            raise Unsupported("closure in a pattern")
                        cs.append(f"{e}.m_contains__0({v})" if p[0] == "range" else f"rt.eq({v}, {e})")
                    w(f"{kw} {' or '.join(cs)}:")
                kw = "elif"
                if brk and self.has_continue(b):
                    raise Unsupported("break and continue in a switch")
                self.sub(b)
            if not had:
                w("else:" if kw == "elif" else "if True:")
                w("    raise rt.Unsupported('switch is not exhaustive')")
            if brk:
                w("break")
                f.ind -= 1
        elif k == "return":
            if s[1] is None:
                w("return None")
            elif getattr(f, "is_init", False):
                if s[1][0] != "nil":
                    raise Unsupported("return from init")
                w("return rt.FAIL")
            else:
                e = self.val(s[1])
                w(f"return {self.co(f.ret, e)}" if f.ret else f"return rt.deflt({e})" if f.parent else f"return {e}")
        elif k == "throw":
            w(f"raise rt.SwiftError({self.ex(s[1])})")
        elif k in ("break", "continue"):
            w(k)
        elif k == "do":
            if not s[2]:
                w("if True:")
                self.sub(s[1])
                return
            w("try:")
            self.sub(s[1])
            ev = self.uid("err")
            w(f"except rt.SwiftError as {ev}:")
            f.ind += 1
            kw = "if"
            closed = False
            for pat, b in s[2]:
                if pat is None:
                    w("if True:" if kw == "if" else "else:")
                    closed = True
                    f.scopes.append({"error": ("let", f"{ev}.v", None)})
                elif pat[0] == "bind":
                    t = f"rt.isa({ev}.v, {self.typ(pat[2])})" if pat[2] else "True"
                    closed = closed or not pat[2]
                    w(f"{kw} {t}:")
                    f.scopes.append({pat[1]: ("let", f"{ev}.v", None)})
                else:
                    w(f"{kw} {' or '.join(f'rt.eq({ev}.v, {self.ex(p)})' for p in pat[1])}:")
                    f.scopes.append({})
                kw = "elif"
                self.sub(b)
                f.scopes.pop()
            if not closed:
                w("else: raise")
            f.ind -= 1
        elif k == "decl" and s[1][0] == "func":
            d = s[1]
            if d[2]:
                raise Unsupported("generic local function")
            if any(p[4] or p[3] is not None for p in d[3]):
                raise Unsupported("local function")
            nm = self.uid("lf_" + d[1] + "_")
            f.scopes[-1][d[1]] = ("fn", nm, [p[0] for p in d[3]])
            self.nested(nm, [(p[1], p[2]) for p in d[3]], d[5], d[4])
        elif k == "defer":
            raise Unsupported("defer")
        else:
            raise Unsupported(f"statement {k}")

    def has_break(self, ss):
        for s in ss:
            if s[0] == "break":
                # a break that is all of the case only ends the case
                if len(ss) == 1:
                    return True
                return True
            if s[0] == "if" and (self.has_break(s[2]) or self.has_break(s[3] or [])):
                return True
            if s[0] == "guard" and self.has_break(s[2]):
                return True
            if s[0] == "do" and (self.has_break(s[1]) or any(self.has_break(c[1]) for c in s[2])):
                return True
        return False

    def has_continue(self, ss):
        for s in ss:
            if s[0] == "continue" or s[0] == "if" and (self.has_continue(s[2]) or self.has_continue(s[3] or [])) or s[0] == "guard" and self.has_continue(s[2]):
                return True
        return False

    def inloop(self, ss):
        self.block(ss)
        self.fn.w("pass")

    def if_(self, s):
        f, w = self.fn, self.fn.w
        _, conds, then, els = s
        if len(conds) == 1 and conds[0][0] == "expr":
            w(f"if rt.cond({self.ex(conds[0][1])}):")
            self.sub(then)
            if els:
                w("else:")
                self.sub(els)
            return
        flag = self.uid("taken")
        w(f"{flag} = False")
        ind = f.ind
        f.scopes.append({})
        for c in conds:
            if c[0] == "let":
                e = self.val(c[3])
                f.scopes.append({})
                py = self.local(c[1], c[2], let=True)
                w(f"{py} = {e}")
                w(f"if {py} is not None:")
            else:
                f.scopes.append({})
                w(f"if rt.cond({self.ex(c[1])}):")
            f.ind += 1
        w(f"{flag} = True")
        self.block(then)
        for _ in conds:
            f.scopes.pop()
        f.scopes.pop()
        f.ind = ind
        if els:
            w(f"if not {flag}:")
            self.sub(els)

    def assign(self, op, lhs, rhs):
        w = self.fn.w
        if lhs[0] == "id" and lhs[1] == "_":
            w(self.ex(rhs))
            return
        v = self.val(rhs)
        if op != "=":
            o = op[:-1]
            if o == "/":
                v = f"rt.div({self.ex(lhs)}, {v})"
            elif o == "%":
                v = f"rt.rem({self.ex(lhs)}, {v})"
            else:
                cur = self.ex(lhs)
                v = f"({cur} {o} {v})"
        self.store(lhs, v, op != "=")

    def store(self, lhs, v, compound=False, w=None):
        w = w or self.fn.w
        if lhs[0] == "paren":
            return self.store(lhs[1], v, compound, w)
        if lhs[0] == "id":
            ent, f = self.lookup(lhs[1])
            if ent:
                if ent[0] == "ref":
                    w(f"{ent[1]}.s({v})")
                    return
                if ent[0] == "let":
                    raise CompileError(f"cannot assign to value: '{lhs[1]}' is a 'let' constant")
                if f is not self.fn:
                    self.fn.nonlocals.add(ent[1])
                ty = ent[2] if len(ent) > 2 else None
                w(f"{ent[1]} = {self.co(ty, v)}" if ty else f"{ent[1]} = rt.deflt({v})")
                return
            e = self.member_self(lhs[1])
            if not e:
                raise Unsupported(f"assignment to {lhs[1]}")
            self.setattr(e, v, w, self.prop_type(lhs[1]))
        elif lhs[0] == "member":
            root = self.rootlet(lhs[1])
            o = self.ex(lhs[1])
            if root:
                o = f"rt.chklet({o}, {root!r})" if lhs[1][0] == "id" else o
            self.setattr(f"{o}.p_{lhs[2]}", v, w, self.prop_type(lhs[2]) if lhs[1] == ("id", "self", None) else None)
        elif lhs[0] == "index":
            if len(lhs[2]) != 1 or lhs[2][0][0]:
                raise Unsupported("subscript")
            w(f"{self.ex(lhs[1])}.setix({self.ex(lhs[2][0][1])}, {v})")
        else:
            raise Unsupported(f"assignment to {lhs[0]}")

    def setattr(self, target, v, w, ty):
        if ty:
            v = self.co(ty, v)
            w(f"{target} = {v}")
            return
        t = self.uid("t")
        # the declared type of the member is not known here: a literal takes the type of the value it replaces
        w(f"{t} = {v}")
        w(f"{target} = rt_like({t}, {target})")

    def rootlet(self, e):
        if e[0] == "id":
            ent, _ = self.lookup(e[1])
            if ent and ent[0] == "let":
                return e[1]
        return None

    def prop_type(self, name):
        t = self.owner().self_ty
        while t:
            if name in t.props:
                return t.props[name][1]
            t = t.base
        return None

    def member_self(self, name, call=False):
        """an unqualified name that is a member of the type we are in, or of one around it"""
        o = self.owner()
        t = o.self_ty
        u = t
        while u:
            if name in u.props and not o.static:
                if name in self.ext and u.path[0].startswith("ext "):
                    return None
                return f"self.p_{name}"
            if name in u.sprops:
                return f"{u.py}.p_{name}"
            if t and t.base is None and u.path[0].startswith("ext "):
                break
            u = u.base
        u = t.parent if t else None
        while u:
            if name in u.sprops:
                return f"{u.py}.p_{name}"
            u = u.parent
        return None

    # ---- expressions
    def val(self, e):
        """an expression whose value is kept: value types are copied out of where they live"""
        x = self.ex(e)
        k = e
        while k[0] in ("paren", "try", "force") and (k[0] != "try" or k[1] == ""):
            k = k[-1]
        return f"rt.cp({x})" if k[0] in ("id", "member", "index", "tern", "optwrap") or k[0] == "bin" and k[1] == "??" else x

    def ex(self, e):
        k = e[0]
        if k == "int":
            return str(e[1]) if e[1] < 10 ** 30 else self.bad("literal")
        if k == "float":
            return f"float({e[1]!r})"
        if k == "bool":
            return str(e[1])
        if k == "nil":
            return "None"
        if k == "str":
            if len(e[1]) == 1:
                return f"rt.Str({e[1][0]!r})"
            return "rt.interp(" + ", ".join(repr(p) if isinstance(p, str) else self.ex(p) for p in e[1]) + ")"
        if k == "paren":
            return f"({self.ex(e[1])})"
        if k == "tuple":
            return "(" + "".join(self.val(x) + ", " for x in e[1]) + ")"
        if k == "array":
            return "rt.SwArray([" + ", ".join(self.val(x) for x in e[1]) + "], True)"
        if k == "dictlit":
            return "rt.SwDict({" + ", ".join(f"{self.ex(a)}: {self.val(b)}" for a, b in e[1]) + "})"
        if k == "implicit":
            return f"rt.Impl({e[1]!r})"
        if k == "typeexpr":
            return self.typ(e[1])
        if k == "id":
            return self.ident(e)
        if k == "member":
            return self.member(e)
        if k == "call":
            return self.call(e)
        if k == "index":
            o = self.ex(e[1])
            if len(e[2]) == 2 and e[2][1][0] == "default":
                return f"{o}.ix_default({self.ex(e[2][0][1])}, {self.ex(e[2][1][1])})"
            if len(e[2]) != 1 or e[2][0][0]:
                raise Unsupported("subscript")
            return f"{o}.ix({self.ex(e[2][0][1])})"
        if k == "unary":
            o = self.ex(e[2])
            if e[1] == "!":
                return f"(not rt.cond({o}))"
            if e[1] == "-" and e[2][0] == "int":
                return f"(-{o})"
            return f"({e[1]}{o})"
        if k == "bin":
            op = e[1]
            if op == "??":
                return f"rt.nilco({self.ex(e[2])}, lambda: {self.ex(e[3])})"
            a, b = self.ex(e[2]), self.ex(e[3])
            if op == "&&":
                return f"(rt.cond({a}) and rt.cond({b}))"
            if op == "||":
                return f"(rt.cond({a}) or rt.cond({b}))"
            if op == "==":
                return f"rt.eq({a}, {b})"
            if op == "!=":
                return f"(not rt.eq({a}, {b}))"
            if op in ("===", "!=="):
                return f"({a} {'is' if op == '===' else 'is not'} {b})"
            if op == "/":
                return f"rt.div({a}, {b})"
            if op == "%":
                return f"rt.rem({a}, {b})"
            if op[0] == "&" and len(op) > 1:
                return f"rt.wrapop({op!r}, {a}, {b})"
            return f"({a} {op} {b})"
        if k == "range":
            return f"rt.mkrange({e[1]!r}, {self.ex(e[2]) if e[2] else None}, {self.ex(e[3]) if e[3] else None})"
        if k == "tern":
            return f"({self.ex(e[2])} if rt.cond({self.ex(e[1])}) else {self.ex(e[3])})"
        if k == "try":
            if e[1] == "?":
                return f"rt.tryopt(lambda: {self.ex(e[2])})"
            if e[1] == "!":
                return f"rt.trybang(lambda: {self.ex(e[2])})"
            return self.ex(e[2])
        if k == "force":
            return f"rt.unwrap({self.ex(e[1])})"
        if k == "optc":
            return f"rt.optc({self.ex(e[1])})"
        if k == "optwrap":
            return f"rt.optwrap(lambda: {self.ex(e[1])})"
        if k == "as":
            if e[1] == "?":
                t = self.typ(e[3])
                return f"(lambda v: v if rt.isa(v, {t}) else None)({self.ex(e[2])})"
            try:
                t = self.typ(e[3])
            except Unsupported:
                raise
            if t == "rt.SwArray":
                return self.co(e[3], self.ex(e[2]))
            return f"rt.as_({self.ex(e[2])}, {t})"
        if k == "is":
            return f"rt.isa({self.ex(e[1])}, {self.typ(e[2])})"
        if k == "closure":
            return self.closure(e)
        if k == "inout":
            return self.inout(e[1])
        raise Unsupported(f"expression {k}")

    def bad(self, w):
        raise Unsupported(w)

    def inout(self, e):
        n = self.uid("_set")
        if e[0] == "id":
            ent, f = self.lookup(e[1])
            if ent and ent[0] == "ref":
                return ent[1]
            if ent and ent[0] == "let":
                raise CompileError(f"cannot pass immutable value as inout argument: '{e[1]}' is a 'let' constant")
        fn = self.fn
        v = self.uid("v")
        sub = Fn(fn, None, False)
        sub.ind = fn.ind + 1
        self.fn = sub
        got = self.ex(e)
        self.store(e, v, w=sub.w)
        self.fn = fn
        self.close(n, [v], sub)
        return f"rt.Ref(lambda: {got}, {n})"

    def close(self, name, sig, sub):
        """write a finished inner function into the one around it"""
        fn = self.fn
        fn.w(f"def {name}({', '.join(sig)}):")
        for v in sorted(sub.nonlocals):
            fn.lines.append("    " * (fn.ind + 1) + f"nonlocal {v}")
            if v not in fn.owned:
                fn.nonlocals.add(v)
        fn.lines += sub.lines
        fn.lines.append("    " * (fn.ind + 1) + "pass")

    def nested(self, name, ps, body, ret):
        fn = self.fn
        sub = Fn(fn, None, False)
        sub.ind = fn.ind + 1
        sub.ret = ret
        self.fn = sub
        sig = []
        for n, ty in ps:
            py = self.local(n, ty, let=True) if n != "_" else self.uid("_a")
            sig.append(py)
            c = self.co(ty, py) if ty else py
            if c != py:
                sub.w(f"{py} = {c}")
        if len(body) == 1 and body[0][0] == "expr":
            body = [("return", body[0][1])]
        self.block(body)
        self.fn = fn
        self.close(name, sig, sub)

    def closure(self, e):
        ps, body = e[1], e[2]
        if ps is None:
            mx = self.dollars(body)
            ps = [(f"${i}", None) for i in range(mx + 1)]
            star = mx < 0
        else:
            star = False
        n = self.uid("_c")
        self.nested(n, ps, body, None)
        if star:
            return f"(lambda *a: {n}())"
        return n

    def dollars(self, x):
        m = -1
        if isinstance(x, tuple) and len(x) > 1 and x[0] == "id" and isinstance(x[1], str) and x[1].startswith("$"):
            return int(x[1][1:])
        if isinstance(x, (tuple, list)):
            if isinstance(x, tuple) and x and x[0] == "closure" and x[1] is None:
                return -1
            for y in x:
                m = max(m, self.dollars(y))
        return m

    def ident(self, e):
        name = e[1]
        g = e[2] if len(e) > 2 else None
        ent, f = self.lookup(name)
        if ent:
            if ent[0] == "ref":
                return f"{ent[1]}.g()"
            if ent[0] == "fn":
                return ent[1]
            return ent[1]
        if name == "self":
            return "self"
        if name == "super":
            return "super()"
        if name == "Self":
            return self.selftype()
        if name == "MemoryLayout":
            return f"rt.MemLayout({self.typ(g[0])})" if g else "rt.MemLayout"
        for tv in reversed(self.tvars):
            if tv[0] == name:
                return tv[1]
        m = self.member_self(name)
        if m:
            return m
        t = self.find((name,), self.cur)
        if t:
            return t.py
        if name in self.gvars:
            return self.gvars[name]
        if name in self.aliases:
            return self.typ(self.aliases[name])
        h = self.hostname(name)
        if h:
            return h
        o = self.owner().self_ty
        if o and o.path[0].startswith("ext "):
            return f"self.p_{name}"
        raise Unsupported(f"name {name}")

    def hostname(self, name):
        if self.host(name):
            return self.host(name)
        return None

    def member(self, e):
        _, o, name, g = e
        if o[0] == "id" and o[1] in ("Swift", "Foundation") and not self.lookup(o[1])[0] and not self.find((o[1],), self.cur):
            if name == "MemoryLayout" and g:
                return f"rt.MemLayout({self.typ(g[0])})"
            return self.hostname(name) or self.bad("Swift." + name)
        t = self.static(e)
        if t:
            return t.py
        so = self.static(o)
        if so and name not in so.sprops and so.kind != "enum" and not (so.base and name in so.base.sprops):
            raise Unsupported(f"static member {name}")
        x = self.ex(o)
        if name in self.ext:
            return f"xprop({x}, {name!r})"
        if name.isdigit():
            return f"rt_tup({x}, {name})"
        return f"{x}.p_{name}"

    def static(self, e):
        """the user type an expression names, if it names one"""
        if e[0] == "id":
            if self.lookup(e[1])[0] or e[1] in ("self", "super", "Self"):
                return None
            o = self.owner().self_ty if self.fn else None
            if self.fn and self.member_self(e[1]):
                return None
            return self.find((e[1],), self.cur)
        if e[0] == "member":
            t = self.static(e[1])
            if t and e[2] in t.types:
                return t.types[e[2]]
        return None

    def call(self, e):
        f, args = e[1], e[2]
        labels = [a[0] for a in args]
        tail = "_".join(l or "0" for l in labels)
        a = ", ".join(self.ex(x[1]) for x in args)
        if f[0] == "paren":
            f = f[1]
        if f[0] == "id":
            name = f[1]
            ent, _ = self.lookup(name)
            if ent:
                if ent[0] == "fn" and ent[2] != labels:
                    raise Unsupported("labels of a local function")
                return f"{self.ident(f)}({a})"
            for tv in reversed(self.tvars):
                if tv[0] == name:
                    return f"{tv[1]}.c__{tail}({a})"
            if name == "Self":
                return f"{self.selftype()}.c__{tail}({a})"
            m = self.method_self(name, labels)
            if m:
                return f"{m}__{tail}({a})"
            t = self.find((name,), self.cur)
            if t:
                return f"{t.py}.c__{tail}({a})"
            if name in self.gfuncs:
                return f"gf_{name}__{tail}({a})"
            if name in self.aliases:
                return f"{self.typ(self.aliases[name])}.c__{tail}({a})"
            if self.host(name):
                return f"{self.host(name)}.c__{tail}({a})"
            if f"{name}__{tail}" in HOSTF:
                return f"rt.f_{name}__{tail}({a})"
            raise Unsupported(f"call of {name}({tail})")
        if f[0] == "typeexpr":
            return f"{self.typ(f[1])}.c__{tail}({a})"
        if f[0] == "member":
            o, name = f[1], f[2]
            if o[0] == "id" and o[1] in ("Swift", "Foundation") and not self.lookup(o[1])[0] and not self.find((o[1],), self.cur):
                if self.host(name):
                    return f"{self.host(name)}.c__{tail}({a})"
                if f"{name}__{tail}" in HOSTF:
                    return f"rt.f_{name}__{tail}({a})"
                raise Unsupported(f"Swift.{name}")
            t = self.static(f)
            if t:
                return f"{t.py}.c__{tail}({a})"
            if f[3]:
                raise Unsupported("generic call")
            if name == "init":
                if o == ("id", "super", None):
                    ty = self.owner().self_ty
                    return f"super({ty.py}, self).i__{tail}({a})"
                if o == ("id", "self", None):
                    return f"self.i__{tail}({a})"
                return f"{self.ex(o)}.c__{tail}({a})"
            if o == ("id", "super", None):
                ty = self.owner().self_ty
                return f"super({ty.py}, self).m_{name}__{tail}({a})"
            if name in ("append", "removeAll", "removeLast", "setix") and o[0] == "id":
                ent, _ = self.lookup(o[1])
                if ent and ent[0] == "let":
                    return f"rt_nolet({self.ex(o)}, {o[1]!r}).m_{name}__{tail}({a})"
            x = self.ex(o)
            if name in self.ext:
                return f"xcall({x}, {name!r}, {tail!r}{', ' + a if a else ''})"
            return f"{x}.m_{name}__{tail}({a})"
        if f[0] == "optc":
            raise Unsupported("optional call")
        if f[0] == "implicit":
            raise Unsupported("implicit member call")
        if f[0] == "closure":
            return f"{self.ex(f)}({a})"
        raise Unsupported(f"call of {f[0]}")

    def method_self(self, name, labels):
        o = self.owner()
        u = o.self_ty
        while u:
            if name in u.methods and not o.static:
                if u.path[0].startswith("ext "):
                    return f"EXTSELF(self).x_{name}"
                return f"self.m_{name}"
            if name in u.smethods:
                return (f"self.m_{name}" if o.static else f"type(self).m_{name}")
            u = u.base
        u = o.self_ty.parent if o.self_ty else None
        while u:
            if name in u.smethods:
                return f"{u.py}.m_{name}"
            u = u.parent
        return None


PRELUDE = '''
def rt_iter(x):
    t = type(x)
    if t is rt.SwArray or isinstance(x, list):
        return tuple(x)
    if isinstance(x, (rt.Range, rt.Data, rt.RawBuf, rt.SwDict)):
        return x
    raise rt.Unsupported("iteration over " + rt.tname(x))
def rt_like(v, old):
    t = type(v)
    if t is int or t is float:
        if old is None:
            raise rt.Unsupported("literal into an optional")
        return type(old).co(v)
    if t is rt.Impl:
        return type(old).co(v)
    if t is rt.SwArray and v.lit:
        if v and type(v[0]) in (int, float, rt.Impl):
            raise rt.Unsupported("literal array")
        v.lit = False
        return v
    if old is not None and v is not None and isinstance(old, (rt.SInt, rt.SFloat, str, bool, rt.SwEnum)) and type(v) is not type(old):
        raise rt.CompileError(f"{rt.tname(v)} assigned where {rt.tname(old)} is needed")
    return v
def rt_tup(x, i):
    return x[i] if isinstance(x, tuple) else getattr(x, f"p_{i}")
def rt_nolet(x, name):
    if isinstance(x, (rt.SwArray, rt.Data)) or isinstance(x, rt.SwStruct) and not isinstance(x, rt.SwClass):
        raise rt.CompileError(f"cannot use mutating member on immutable value: '{name}' is a 'let' constant")
    return x
def xcall(o, name, tail, *a):
    if isinstance(o, tuple(rt.TYPES[h] for h in EXT[name])):
        f = globals().get(f"x_{name}__{tail}")
        if f:
            return f(o, *a)
    return getattr(o, f"m_{name}__{tail}")(*a)
def xprop(o, name):
    if isinstance(o, tuple(rt.TYPES[h] for h in EXT[name])) and f"xp_{name}" in globals():
        return globals()[f"xp_{name}"](o)
    return getattr(o, "p_" + name)
class EXTSELF:
    def __init__(self, o): self.o = o
    def __getattr__(self, n): return lambda *a: globals()[n](self.o, *a)
'''


def translate(src):
    c = Compiler(src)
    body = c.compile()
    head, rest = body.split("\n", 1)
    types = {".".join(t.path): t.py for t in c.order}
    code = head + "\n" + f"EXT = {({k: sorted(v) for k, v in c.ext.items()})!r}\n" + PRELUDE + rest + f"\nSWTYPES = {types!r}\n"
    return code
