"""Reference codec written from the documentation (the oracle). No code under test."""
import struct as S
from .model import SIZE, RANGE

FMT = {"byte": "<B", "uint16": "<H", "int16": "<h", "uint32": "<I", "int32": "<i", "uint64": "<Q", "int64": "<q", "float": "<I", "double": "<Q"}


class Bad(Exception):
    """the bytes do not denote a message. kind: eof | enum | length"""
    def __init__(self, kind, at):
        super().__init__(f"{kind}@{at}")
        self.kind, self.at = kind, at


def enc_base(t, v):
    if t == "bool":
        return b"\1" if v else b"\0"
    return S.pack(FMT[t], v)


def encode(p, st, val, spans=None, base=0, path=""):
    """spans, if given, collects (start, end, kind, path, type) of every leaf."""
    out = bytearray()

    def leaf(b, kind, path, t):
        if spans is not None:
            spans.append((base + len(out), base + len(out) + len(b), kind, path, t))
        out.extend(b)

    def one(t, v, path):
        k = p.kind(t)
        if k == "base":
            leaf(enc_base(t, v), t, path, t)
        elif k == "string":
            leaf(enc_base(p.sst, len(v)), "strlen", path, p.sst)
            leaf(v, "strbytes", path, "string")
        elif k == "enum":
            leaf(enc_base(p.enums[t].enc, v), "enum", path, t)
        else:
            for m, x in zip(p.structs[t].members, v):
                member(m, x, path + "." + m.name)

    def member(m, v, path):
        if m.is_list:
            leaf(enc_base(p.lst, len(v)), "listlen", path, p.lst)
            for i, x in enumerate(v):
                one(m.type, x, f"{path}[{i}]")
        else:
            one(m.type, v, path)
    for m, v in zip(st.members, val):
        member(m, v, path + m.name)
    return bytes(out)


def decode(p, st, data, pos=0, end=None):
    """returns (value, next position, has_invalid_utf8)"""
    end = len(data) if end is None else end
    bad_utf8 = [False]

    def take(n):
        nonlocal pos
        if n > end - pos:
            raise Bad("eof", pos)
        b = data[pos:pos + n]
        pos += n
        return b

    def base(t):
        b = take(SIZE[t])
        if t == "bool":
            return 1 if b[0] else 0
        return S.unpack(FMT[t], b)[0]

    def one(t):
        k = p.kind(t)
        if k == "base":
            return base(t)
        if k == "string":
            at = pos
            n = base(p.sst)
            if n < 0:
                raise Bad("length", at)
            b = bytes(take(n))
            try:
                b.decode("utf-8")
            except UnicodeDecodeError:
                bad_utf8[0] = True
            return b
        if k == "enum":
            at = pos
            v = base(p.enums[t].enc)
            if v not in p.enums[t].declared():
                raise Bad("enum", at)
            return v
        return [member(m) for m in p.structs[t].members]

    def member(m):
        if not m.is_list:
            return one(m.type)
        at = pos
        n = base(p.lst)
        if n < 0:
            raise Bad("length", at)
        out = []
        for _ in range(n):
            if min_size(p, m.type) > 0 or len(out) < 100000:
                out.append(one(m.type))
            else:
                raise Bad("length", at)
        return out
    v = [member(m) for m in st.members]
    return v, pos, bad_utf8[0]


def min_size(p, t):
    k = p.kind(t)
    if k == "base":
        return SIZE[t]
    if k == "string":
        return SIZE[p.sst]
    if k == "enum":
        return SIZE[p.enums[t].enc]
    return sum(SIZE[p.lst] if m.is_list else min_size(p, m.type) for m in p.structs[t].members)


def tagged(p, mi, val):
    return bytes([mi + 1]) + encode(p, p.msgs[mi], val)


def stream(p, items):
    return b"".join(tagged(p, mi, v) for mi, v in items)


def pack(p, items):
    return b"BSCI" + S.pack("<I", len(items)) + stream(p, items) + b"\0"


def process(p, data, maximum=-1, pos=0):
    """expected ProcessRawBytes: (items, next position); raises Bad"""
    out, bad = [], False
    if maximum == 0:
        return out, pos, bad
    while pos < len(data) and (maximum < 0 or len(out) < maximum):
        t = data[pos]
        pos += 1
        if t == 0:
            break
        if t > len(p.msgs):
            raise Bad("tag", pos - 1)
        v, pos, b = decode(p, p.msgs[t - 1], data, pos)
        bad = bad or b
        out.append((t - 1, v))
    return out, pos, bad


def process_partial(p, data, maximum=-1, pos=0):
    """(items before the first error, error kind or None, next position, invalid utf8 seen, reason kinds)"""
    out, bad = [], False
    if maximum == 0:
        return out, None, pos, bad
    while pos < len(data) and (maximum < 0 or len(out) < maximum):
        t = data[pos]
        pos += 1
        if t == 0:
            break
        if t > len(p.msgs):
            return out, "tag", pos, bad
        try:
            v, pos, b = decode(p, p.msgs[t - 1], data, pos)
        except Bad as e:
            return out, e.kind, pos, bad
        bad = bad or b
        out.append((t - 1, v))
    return out, None, pos, bad


def unpack(p, data):
    if len(data) < 8 or data[:4] != b"BSCI":
        raise Bad("header", 0)
    n = S.unpack("<I", data[4:8])[0]
    items, pos, b = process(p, data, n, 8) if n else ([], 8, False)
    if len(items) != n:
        raise Bad("count", pos)
    return items, pos, b


# ---------------------------------------------------------------- neutral tokens

def tokens(p, st, val):
    out = []

    def one(t, v):
        k = p.kind(t)
        if k == "string":
            out.append("x" + v.hex())
        elif k == "struct":
            for m, x in zip(p.structs[t].members, v):
                member(m, x)
        else:
            out.append(str(int(v)))

    def member(m, v):
        if m.is_list:
            out.append(str(len(v)))
            for x in v:
                one(m.type, x)
        else:
            one(m.type, v)
    for m, v in zip(st.members, val):
        member(m, v)
    return out


def from_tokens(p, st, toks, i=0):
    """inverse of tokens; enum members reported as unknown are ('?', raw)"""
    def one(t):
        nonlocal i
        k = p.kind(t)
        if k == "struct":
            return [member(m) for m in p.structs[t].members]
        s = toks[i]
        i += 1
        if k == "string":
            if not s.startswith("x"):
                raise ValueError(f"expected string token, got {s}")
            return bytes.fromhex(s[1:])
        if s.startswith("?"):
            return s
        return int(s)

    def member(m):
        nonlocal i
        if m.is_list:
            n = int(toks[i])
            i += 1
            return [one(m.type) for _ in range(n)]
        return one(m.type)
    v = [member(m) for m in st.members]
    return v, i
