"""Swift: there is no Swift compiler here, so the generated code is run by an interpreter of the language (swift_front, swift_comp,
swift_rt).  What it does not know makes Swift be left out of the run; it is never a verdict."""
import json, os, sys
from . import common, engine
from .engine import Built, Unit, BuildError
from .lang_c import extra_for
from .swift_front import Unsupported


def prepare(root, files):
    """{index: (source file, protocol, namespace)} -> (indices left out and why, {index: what no Swift compiler accepts})"""
    from . import swift_comp
    from .lang_js import schema
    skipped, wrong = {}, {}
    for k, (f, p, ns) in files.items():
        try:
            code = swift_comp.translate(open(f, encoding="utf-8").read())
        except Unsupported as e:
            skipped[k] = str(e)
            continue
        except swift_comp.CompileError as e:
            wrong[k] = str(e)
            continue
        except (IndexError, KeyError, TypeError, AttributeError, ValueError, RecursionError) as e:
            skipped[k] = f"translator: {type(e).__name__} {e}"
            continue
        with open(os.path.join(root, f"p{k}.py"), "w", encoding="utf-8") as o:
            o.write(code)
    json.dump({str(k): dict(schema(p), ns=ns, skip=skipped.get(k) or wrong.get(k)) for k, (f, p, ns) in files.items()}, open(os.path.join(root, "schema.json"), "w"))
    return skipped, wrong


def units(root, idx):
    n = min(len(idx), 8)
    argv = [sys.executable, "-X", "utf8", "-m", "mon.lang_swift", root]
    return Built("swift", [Unit(argv, idx[i::n], cwd=common.VERIF, cpu=200) for i in range(n)])


def build(protos, wd, extra=(), idx=None, **kw):
    idx = list(idx) if idx is not None else list(range(len(protos)))
    root = os.path.join(wd, "swift")
    os.makedirs(root, exist_ok=True)
    files = common.pmap(lambda k: engine.generate("swift", protos[k].toml(), root, f"p{k}", ".swift", extra_for(extra, protos[k])), idx)
    skipped, wrong = prepare(root, {k: (f, protos[k], protos[k].ns) for k, f in zip(idx, files)})
    for k, why in wrong.items():
        raise BuildError("swift", "compile", f"{root}/p{k}.swift: {why}")
    b = units(root, idx)
    b.skipped = skipped
    return b


# ---------------------------------------------------------------- the driver

def main(root):
    from . import swift_rt as rt
    S = json.load(open(os.path.join(root, "schema.json")))
    mods = {}
    IT = {"byte": rt.UInt8, "uint16": rt.UInt16, "int16": rt.Int16, "uint32": rt.UInt32, "int32": rt.Int32, "uint64": rt.UInt64, "int64": rt.Int64}

    class Mod:
        pass

    def load(k):
        if k in mods:
            return mods[k]
        p = S[k]
        if p["skip"]:
            raise Unsupported(p["skip"])
        g = {"__name__": f"swift{k}"}
        exec(compile(open(os.path.join(root, f"p{k}.py"), encoding="utf-8").read(), f"p{k}.swift", "exec"), g)
        m = Mod()
        m.g = g
        pre = p["ns"] + "." if p["ns"] else ""
        m.t = lambda n: g[g["SWTYPES"][pre + n]]
        m.p = p
        ns = g[g["SWTYPES"][p["ns"]]] if p["ns"] else None
        m.fn = lambda n: getattr(ns, "m_" + n) if ns else g["gf_" + n]
        m.cls = [m.t(n) for n, _ in p["msgs"]]
        mods[k] = m
        return m

    class Tk:
        def __init__(self, s):
            self.t, self.i = s, 0

        def next(self):
            self.i += 1
            return self.t[self.i - 1]

        def n(self):
            return int(self.next())

        def hex(self):
            return bytes.fromhex(self.next()[1:])

        def more(self):
            return self.i < len(self.t)

    def rd1(m, t, tk):
        p = m.p
        if t == "string":
            return rt.Str(tk.hex().decode())
        if t in p["enums"]:
            v = tk.n()
            name = next(n for n, x in p["enums"][t] if x == v)
            return getattr(m.t(t), "p_" + name)
        if t in p["structs"]:
            o = m.t(t).c__()
            rdinto(m, p["structs"][t], o, tk)
            return o
        if t == "bool":
            return tk.n() != 0
        if t == "float":
            return rt.Float32(tk.n())
        if t == "double":
            return rt.Float64(tk.n())
        return IT[t]._mk(tk.n())

    def rdinto(m, ms, o, tk):
        for n, t, l in ms:
            if not hasattr(o, "p_" + n):
                raise rt.CompileError(f"no member {n}")
            if l:
                c = tk.n()
                setattr(o, "p_" + n, rt.SwArray([rd1(m, t, tk) for _ in range(c)]))
            else:
                setattr(o, "p_" + n, rd1(m, t, tk))

    def d1(m, t, v, o):
        p = m.p
        if t == "string":
            o.append("x" + v.encode().hex() if type(v) is rt.Str else "!TYPE")
        elif t in p["enums"]:
            if type(v) is not m.t(t):
                o.append("!TYPE")
            else:
                want = next((x for n, x in p["enums"][t] if n == v.name), None)
                o.append(str(want) if want is not None and v.r == want else f"?{v}")
        elif t in p["structs"]:
            if type(v) is not m.t(t):
                o.append("!TYPE")
            else:
                dinto(m, p["structs"][t], v, o)
        elif t == "bool":
            o.append(str(int(v)) if type(v) is bool else "!TYPE")
        elif t in ("float", "double"):
            o.append(str(v.bits) if type(v) is (rt.Float32 if t == "float" else rt.Float64) else "!TYPE")
        else:
            o.append(str(int(v)) if type(v) is IT[t] else "!TYPE" + rt.tname(v))

    def dinto(m, ms, x, o):
        for n, t, l in ms:
            v = getattr(x, "p_" + n)
            if l:
                if type(v) is not rt.SwArray:
                    o.append("!TYPE")
                    continue
                o.append(str(len(v)))
                for e in v:
                    d1(m, t, e, o)
            else:
                d1(m, t, v, o)

    def dump(m, mi, x):
        o = []
        dinto(m, m.p["msgs"][mi][1], x, o)
        return "".join(" " + t for t in o)

    def make(m, mi, tk):
        x = m.cls[mi].c__()
        rdinto(m, m.p["msgs"][mi][1], x, tk)
        return x

    def typ(x):
        return int(x.m_GetMessageType__().p_rawValue)

    def lst(m, l):
        s = f" {len(l)}"
        for x in l:
            mi = typ(x) - 1
            s += f" | {mi}" + (dump(m, mi, x) if 0 <= mi < len(m.cls) and type(x) is m.cls[mi] else " !CLASS")
        return s

    def items(m, tk):
        out = []
        for _ in range(tk.n()):
            mi = tk.n()
            out.append((mi, make(m, mi, tk)))
        return out

    def size(x):
        return int(rt.UInt32.co(x.m_GetSizeInBytes__()))

    def wr(x, tag, w=None):
        w = rt.NSMutableData() if w is None else w
        x.m_WriteBytes__data_tag(w, tag)
        return w

    def attempt(f):
        try:
            return True, f()
        except rt.SwiftError as e:
            if not (isinstance(e.v, rt.SwEnum) or isinstance(e.v, rt.SwStruct)):
                raise
            return False, e

    def views(b):
        """the same bytes as a whole Data, and as slices of larger ones"""
        yield rt.Data(b)
        yield rt.Data(b"A" * 8 + b + b"A" * 24).ix(rt.Range(8, 8 + len(b)))
        yield rt.Data(b + b"\1\0\0\0" * 4).ix(rt.Range(0, len(b)))

    def poke(m, ms, o):
        for n, t, l in ms:
            v = rt.Str("poked") if t == "string" else getattr(m.t(t), "p_" + m.p["enums"][t][-1][0]) if t in m.p["enums"] else m.t(t).c__() if t in m.p["structs"] else True if t == "bool" \
                else rt.Float32(7) if t == "float" else rt.Float64(7) if t == "double" else IT[t]._mk(7)
            if l:
                getattr(o, "p_" + n).append(v)
            elif t in m.p["structs"]:
                poke(m, m.p["structs"][t], getattr(o, "p_" + n))
            else:
                setattr(o, "p_" + n, v)

    def packed(m, l):
        a = rt.SwArray(l)
        ps = int(rt.Int.co(m.g["xcall"](a, "GetPackedSize", "")))
        w = rt.NSMutableData()
        m.g["xcall"](a, "PackMessages", "0", w)
        return ps, w

    def unpack(m, d):
        return m.t("Message").m_UnpackMessages__0(d)

    def process(m, d, mx):
        return m.fn("ProcessRawBytes__0_max")(d, rt.Int._mk(mx))

    def refill(m, ms, o, tk):
        for n, t, l in ms:
            if not l and t in m.p["structs"]:
                refill(m, m.p["structs"][t], getattr(o, "p_" + n), tk)
            else:
                rdinto(m, [(n, t, l)], o, tk)

    def op_E(m, tk, again=False):
        mi = tk.n()
        mode = tk.n() if again else -1
        x = make(m, mi, tk)
        if again:
            w = wr(x, True).b
            if mode == 1:
                x = m.cls[mi].m_FromBytes__0(rt.Data(bytes(w[1:])))
            size(x), wr(x, mode == 0), packed(m, [x])
            refill(m, m.p["msgs"][mi][1], x, tk)
        before = dump(m, mi, x)
        s = size(x)
        a, b, c = wr(x, True).b, wr(x, False).b, wr(x, True).b
        same = a == c and a[1:] == b and size(x) == s and dump(m, mi, x) == before
        return f"OK {s} {len(a)} {len(b)} {int(same)} x{a.hex()} x{b.hex()}"

    def op_D(m, tk, ow=False):
        mi, off, b = tk.n(), tk.n(), tk.hex()
        C = m.cls[mi]
        DR = m.t("DataReader")
        res = []
        for d in views(b):
            r = DR.c__fromData(d)
            r.p_currentOffset = rt.Int._mk(off)
            ok, x = attempt(lambda: C.m_FromBytes__dataReader(r))
            if ok and type(x) is not C:
                return "OK !CLASS"
            res.append(f"{int(r.p_currentOffset)}{' 1' if ow else ''}{dump(m, mi, x)}" if ok else None)
            if d.b != b:
                return "BUFFERCHANGED"
        if off <= len(b):
            for d in views(b[off:]):
                ok, x = attempt(lambda: C.m_FromBytes__0(d))
                t = (" 1" if ow else "") + dump(m, mi, x) if ok else None
                w = None if res[0] is None else res[0][len(res[0].split(" ")[0]):]
                if t != w:
                    return f"VIEWS-DISAGREE {t} vs {w}"
        if len(set(res)) > 1:
            return f"VIEWS-DISAGREE {res}"
        return "ERR" if res[0] is None else "OK " + res[0]

    def op_Q(m, tk):
        off, b = tk.n(), tk.hex()
        r = m.t("DataReader").c__fromData(rt.Data(b))
        r.p_currentOffset = rt.Int._mk(off)
        s = "OK"
        while tk.more():
            mi = tk.n()
            ok, x = attempt(lambda: m.cls[mi].m_FromBytes__dataReader(r))
            if not ok:
                return s + " ERR"
            s += f" | {int(r.p_currentOffset)}{dump(m, mi, x)}"
        return s

    def op_N(m, tk):
        tag, off = tk.n() != 0, tk.n()
        w = rt.NSMutableData(b"\xAA" * off)
        for _, x in items(m, tk):
            wr(x, tag, w)
        return f"OK {len(w.b)} x{(bytes(w.b) + bytes([0xAA]) * 16).hex()}"

    def op_S(m, tk):
        mx, off, b = tk.n(), tk.n(), tk.hex()
        out = []
        for d in views(b[off:]):
            ok, l = attempt(lambda: process(m, d, mx))
            out.append("OK -1" + lst(m, l) if ok else "ERR")
            if len(b) > 20000:
                break
        return out[0] if len(set(out)) == 1 else f"VIEWS-DISAGREE {out}"

    def op_P(m, tk):
        tk.n()
        l = [x for _, x in items(m, tk)]
        ps, w = packed(m, l)
        return f"OK {ps} {len(w.b)} x{w.b.hex()}"

    def op_U(m, tk):
        off, b = tk.n(), tk.hex()
        out = []
        for d in views(b[off:]):
            ok, l = attempt(lambda: unpack(m, d))
            out.append("OK -1" + lst(m, l) if ok else "ERR")
            if len(b) > 20000:
                break
        return out[0] if len(set(out)) == 1 else f"VIEWS-DISAGREE {out}"

    def op_F(m, tk):
        mi = tk.n()
        C = m.cls[mi]
        x = C.c__()
        a = wr(x, False).b
        poke(m, m.p["msgs"][mi][1], C.c__())
        y = C.c__()
        b = wr(y, False).b
        return f"OK {size(x)} x{a.hex()} x{b.hex()} {typ(x) - 1}{dump(m, mi, x)} /{dump(m, mi, y)}"

    def op_T(m, tk):
        mi = tk.n()
        C = m.cls[mi]
        x = make(m, mi, tk)
        a = wr(x, True).b
        _, pk = packed(m, [x])

        def one(f):
            ok, l = attempt(f)
            if not ok:
                return -2
            if len(l) != 1:
                return -1
            return typ(l[0]) + (0 if wr(l[0], True).b == a and type(l[0]) is C else 1000)
        ok, r = attempt(lambda: C.m_FromBytes__0(rt.Data(bytes(a[1:]))))
        c = getattr(m.t("MessageType"), "p_" + m.p["msgs"][mi][0] + "Type").p_rawValue
        d = rt.Data(bytes(a))
        return f"OK {int(c)} {typ(C.c__())} {typ(x)} {typ(r) if ok else -2} {one(lambda: process(m, d, -1))} {one(lambda: unpack(m, rt.Data(bytes(pk.b))))} {one(lambda: process(m, d, 1))} x{a[:1].hex()}"

    def op_M(m, tk):
        w = tk.next()
        a = 0 if w == "U" else tk.n()
        d = rt.Data(tk.hex())
        rt.ASKED[0] = 0
        try:
            ok, _ = attempt(lambda: m.cls[a].m_FromBytes__0(d) if w == "D" else process(m, d, a) if w == "S" else unpack(m, d))
        except rt.Trap as e:
            if "at once" not in str(e) and "allocation" not in str(e):
                raise
            ok = False
        return f"{'OK' if ok else 'ERR'} {rt.ASKED[0]}"

    def op_C(m, tk):
        mi = tk.n()
        x = make(m, mi, tk)
        s = size(x)
        a = wr(x, True).b
        ok = True
        for _ in range(4):
            packed(m, [x])
            if wr(x, True).b != a or size(x) != s:
                ok = False
        return f"OK {int(ok)} x{a.hex()}{dump(m, mi, x)}"

    OPS = {"E": op_E, "V": lambda m, tk: op_E(m, tk, True), "D": op_D, "I": lambda m, tk: op_D(m, tk, True), "Q": op_Q, "N": op_N, "S": op_S, "P": op_P, "U": op_U, "F": op_F, "T": op_T, "C": op_C, "M": op_M}
    sys.setrecursionlimit(4000)
    for line in sys.stdin:
        f = line.split()
        if not f:
            continue
        try:
            if f[1] not in OPS:
                raise Unsupported("operation " + f[1])
            out = OPS[f[1]](load(f[0]), Tk(f[2:]))
        except rt.Trap as e:
            out = f"PANIC swift stops: {e}"
        except rt.CompileError as e:
            out = f"PANIC swift does not compile: {e}"
        except Unsupported as e:
            out = f"SKIPPED swift: {e}"
        except Exception as e:
            if os.environ.get("DRV_DEBUG"):
                raise
            out = f"SKIPPED swift: {type(e).__name__} {e}"
        sys.stdout.write("> " + out.replace("\n", " / ") + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main(sys.argv[1])
