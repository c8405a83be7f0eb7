"""C08: arbitrary bytes never crash a decoder, and every language judges them the same."""
import struct as S
from mon import harness as H, model, ref
from mon.harness import Case


def canon(p, st, val):
    def one(t, v):
        k = p.kind(t)
        if k == "struct":
            return [mem(m, x) for m, x in zip(p.structs[t].members, v)]
        if t == "float" and isinstance(v, int) and v & 0x7F800000 == 0x7F800000 and v & 0x7FFFFF:
            return "nan"
        if t == "double" and isinstance(v, int) and v & 0x7FF0000000000000 == 0x7FF0000000000000 and v & 0xFFFFFFFFFFFFF:
            return "nan"
        if isinstance(v, str) and v.startswith("?"):
            return "?"
        return v

    def mem(m, v):
        return [one(m.type, x) for x in v] if m.is_list else one(m.type, v)
    return [mem(m, v) for m, v in zip(st.members, val)]


def as_decode(p, st, data, pos):
    """as ref.decode, with undeclared enum values kept as '?' (AssemblyScript)"""
    saved = {n: e.declared for n, e in p.enums.items()}
    class All:
        def __contains__(self, x):
            return True
    for e in p.enums.values():
        e.declared = lambda: All()
    try:
        v, np, bad = ref.decode(p, st, data, pos)
    finally:
        for n, e in p.enums.items():
            e.declared = saved[n]

    def one(t, v):
        k = p.kind(t)
        if k == "struct":
            return [mem(m, x) for m, x in zip(p.structs[t].members, v)]
        if k == "enum" and v not in p.enums[t].declared():
            return "?"
        return v

    def mem(m, v):
        return [one(m.type, x) for x in v] if m.is_list else one(m.type, v)
    return [mem(m, x) for m, x in zip(st.members, v)], np, bad


def want(p, mi, data, pos):
    st = p.msgs[mi]

    def dec(f):
        try:
            return f(p, st, data, pos)
        except ref.Bad as e:
            return e.kind
    normal = dec(ref.decode)
    asd = dec(as_decode)

    def judge(label, r):
        m = H.ALARM.search(r.replace("!UTF16", ""))
        if m:
            return f"alarm {m.group(0)}"
        w = asd if label.startswith("assemblyscript") else normal
        if w == "length":
            return None                 # a negative length: any answer but a crash
        if isinstance(w, str):
            return None if r.startswith("ERR") else f"bytes that denote no message ({w}) accepted"
        val, np, bad = w
        if bad:
            return None                 # not UTF-8: any answer but a crash
        if not r.startswith("OK"):
            return "bytes that denote a message rejected"
        f = r.split(" ")
        if int(f[1]) != np:
            return f"consumed up to {f[1]} instead of {np}"
        try:
            got, i = ref.from_tokens(p, st, f[2:])
            if i != len(f) - 2:
                return "answered something else than the reference"
        except Exception:
            return "answered something else than the reference"
        return None if canon(p, st, got) == canon(p, st, val) else "decoded to something else than the bytes denote"
    return judge, not isinstance(normal, str)


def mutate(rng, p, mi, g, others):
    st = p.msgs[mi]
    spans = []
    e = ref.encode(p, st, g.message(mi), spans)
    b = bytearray(e)
    k = rng.randrange(9)
    if k == 0:
        for _ in range(rng.choice([1, 1, 2, 5])):
            if b:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif k == 1:
        for _ in range(rng.choice([1, 1, 3])):
            if b:
                b[rng.randrange(len(b))] = rng.choice([0, 0xFF, 0x7F, 0x80, rng.randrange(256)])
    elif k in (2, 3, 4):
        ls = [s for s in spans if s[2] in ("listlen", "strlen")]
        if ls:
            a, z, kd, _, t = rng.choice(ls)
            lo, hi = model.RANGE[t]
            old = int.from_bytes(e[a:z], "little", signed=lo < 0)
            # exact powers of two and divisions of them: where a multiplication by an element size wraps around
            wraps = [2**w // q + o for w in (8, 16, 31, 32, 33, 63, 64) for q in (1, 2, 4, 8, 3, 12, 16, 24, 32, 40) for o in (-1, 0, 1)]
            c = rng.choice([old + 1, old - 1, old + rng.randint(2, 300), hi, hi - 1, hi // 2, hi // 2 + 1, len(e) - z, len(e) - z + 1, lo, -1, rng.randint(lo, hi), hi - (z - a), hi - z, hi - len(e),
                            hi - len(e) + z, rng.choice(wraps), rng.choice(wraps), rng.choice(wraps)])
            if lo <= c <= hi:
                b[a:z] = ref.enc_base(t, c)
    elif k == 5:
        b = bytearray(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 16, 60])))
    elif k == 6:
        b = bytearray(rng.choice([0, 0, 0, 1, 2, 0xFF]) for _ in range(rng.choice([1, 4, 9, 30, 100])))
    elif k == 7 and b:
        i = rng.randrange(len(b))
        j = min(len(b), i + rng.choice([1, 2, 4, 8]))
        if rng.random() < 0.5:
            del b[i:j]
        else:
            b[i:i] = b[i:j]
    else:
        o = rng.choice(others)
        i = rng.randint(0, len(b))
        b = b[:i] + o[rng.randint(0, len(o)):]
    return bytes(b)


def main():
    ck = H.Check("C08", rule="a case is one byte string (encoding with flipped bits, overwritten bytes, changed lengths, deleted or repeated runs, spliced with another encoding, or "
                 "random) read as one message by one language, compared with the reference decoder; distinct by language, protocol and bytes; an empty byte string is trivial")
    ps = H.suite(ck, ck.budget(6, 20), core=ck.budget(2, 5))
    bs = ck.build(ps)
    rng = ck.rng
    cases = []
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=3)
        others = [ref.encode(p, m, g.message(i)) for i, m in enumerate(p.msgs) for _ in range(3)]
        for mi, m in enumerate(p.msgs):
            for it in range(ck.budget(110, 700) if m.members else 3):
                data = mutate(rng, p, mi, g, others)
                if len(data) > 5000:
                    continue
                pre = rng.choice([b"", b"", b"", b"\x07\0\0"])
                try:
                    j, isok = want(p, mi, pre + data, len(pre))
                except RecursionError:
                    continue
                ck.count("reference accepts" if isok else "reference rejects")
                cases.append(Case(k, f"D {mi} {len(pre)} x{(pre + data).hex()}", j, trivial=not data))
    # streams and packed data: no crash, no hang, no leak
    noalarm = lambda label, r: (f"alarm {H.ALARM.search(r).group(0)}" if H.ALARM.search(r.replace("!UTF16", "")) else None)
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=2)
        for it in range(ck.budget(120, 600)):
            items = [(mi, g.message(mi)) for mi in (rng.randrange(len(p.msgs)) for _ in range(rng.choice([1, 2, 4])))]
            pk = rng.random() < 0.5
            b = bytearray(ref.pack(p, items) if pk else ref.stream(p, items))
            for _ in range(rng.choice([1, 1, 2, 6])):
                b[rng.randrange(len(b))] = rng.choice([0, 1, 0xFF, 0x80, 0x7F, rng.randrange(256)])
            if len(b) < 5000:
                cases.append(Case(k, f"{'U 0' if pk else 'S -1 0'} x{bytes(b).hex()}", noalarm))
    ck.run(bs, cases)
    return ck.finish(1000, [f"{l} OK" for l in H.LANGS] + [f"{l} ERR" for l in H.LANGS] + ["reference accepts", "reference rejects"])
