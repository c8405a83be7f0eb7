"""C06: streams of tagged messages."""
from mon import harness as H, model, ref
from mon.harness import Case


def want_stream(p, data, maximum, off):
    items, err, pos, _ = ref.process_partial(p, data, maximum, off)
    ok = H.list_reply(p, items, pos)

    def judge(label, r):
        m = H.ALARM.search(r)
        if m:
            return f"alarm {m.group(0)}"
        if err is None:
            return H.default_judge(label, Case(0, "", ok), r)
        if label.startswith("assemblyscript"):      # has no way to report: the messages before the error
            if err == "enum":
                return None if r.startswith("OK") else "expected the messages"
            return None if r.startswith("OK") and H.strip_pos(r) == H.strip_pos(ok) else "expected the messages before the malformed one"
        return None if r.startswith("ERR") else f"malformed stream ({err}) accepted"
    return judge


def main():
    ck = H.Check("C06", rule="a case is one byte stream with one maximum, processed by one language: well-formed ones must give exactly the reference list and end at the "
                 "reference position, malformed ones an error; distinct by language, protocol, stream, maximum; an empty stream is trivial")
    ps = H.suite(ck, ck.budget(4, 12), core=ck.budget(2, 4))
    many = model.Proto("Many", [], [], [model.Struct(f"Msg{i}", [model.Member("x", "int16")] if i % 3 else [model.Member("names", "string", True)]) for i in range(255)])
    ps.append(many)
    dots = model.Proto("Dots", [], [], [model.Struct("Dot", []), model.Struct("Dash", [model.Member("x", "byte")])])
    ps.append(dots)
    bs = ck.build(ps)
    rng = ck.rng
    cases = []

    def add(k, data, maximum, off=0):
        cases.append(Case(k, f"S {maximum} {off} x{data.hex()}", want_stream(ps[k], data, maximum, off), trivial=not data))
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=2)
        nm = len(p.msgs)
        for it in range(ck.budget(130, 500)):
            n = rng.choice([0, 1, 1, 2, 3, 5, 9, 30 if it % 10 == 0 else 4])
            items = [(mi, g.message(mi)) for mi in (rng.randrange(nm) for _ in range(n))]
            data = ref.stream(p, items)
            if len(data) > 6000:
                continue
            pre = rng.choice([b"", b"", b"\x05\x00", b"\x00", b"\xff\xff\xff"])
            off = len(pre)
            for mx in {-1, rng.choice([0, 1, 2, n - 1 if n else 0, n, n + 1, -1, -7, 1000, 2147483647])}:
                add(k, pre + data, mx, off)
            kind = rng.randrange(6)
            if kind == 0:       # terminator somewhere
                j = rng.randint(0, n)
                add(k, ref.stream(p, items[:j]) + b"\0" + ref.stream(p, items[j:]), rng.choice([-1, -1, j, j + 1, max(0, j - 1)]))
            elif kind == 1 and nm < 255:     # unknown tag
                j = rng.randint(0, n)
                t = rng.choice([nm + 1, 255, rng.randint(nm + 1, 255)])
                add(k, ref.stream(p, items[:j]) + bytes([t]) + ref.stream(p, items[j:]), rng.choice([-1, -1, j, j + 1]))
            elif kind == 2 and data:         # cut
                c = rng.randrange(len(data))
                add(k, data[:c], rng.choice([-1, -1, n]))
            elif kind == 3:     # terminator then rubbish
                add(k, data + b"\0" + bytes(rng.randrange(256) for _ in range(rng.randint(1, 20))), -1)
            elif kind == 4 and n:            # a declared enum replaced, in the j-th message
                j = rng.randrange(n)
                mi, v = items[j]
                spans = []
                e = bytearray(ref.encode(p, p.msgs[mi], v, spans))
                es = [s for s in spans if s[2] == "enum"]
                if es:
                    a, b, _, _, t = rng.choice(es)
                    lo, hi = model.RANGE[p.enums[t].enc]
                    bad = [x for x in range(lo, hi + 1) if x not in p.enums[t].declared()] if hi - lo < 70000 else [x for x in (lo, hi, 77, -77) if x not in p.enums[t].declared()]
                    if bad:
                        e[a:b] = ref.enc_base(p.enums[t].enc, rng.choice(bad))
                        add(k, ref.stream(p, items[:j]) + bytes([mi + 1]) + bytes(e) + ref.stream(p, items[j + 1:]), rng.choice([-1, -1, n, j, j + 1]))
            elif kind == 5 and n:            # a length of the j-th message inflated beyond the end
                j = rng.randrange(n)
                mi, v = items[j]
                spans = []
                e = bytearray(ref.encode(p, p.msgs[mi], v, spans))
                ls = [s for s in spans if s[2] in ("listlen", "strlen")]
                if ls:
                    a, b, kd, _, t = rng.choice(ls)
                    hi = model.RANGE[t][1]
                    # only lengths that cannot fit, so that the stream cannot come back into step
                    big = hi if hi > 200000 else None
                    if big:
                        e[a:b] = ref.enc_base(t, big)
                        add(k, ref.stream(p, items[:j]) + bytes([mi + 1]) + bytes(e) + ref.stream(p, items[j + 1:]), rng.choice([-1, -1, n, j]))
        # long streams, around the sizes at which lists of messages grow
        tiny = sorted(range(nm), key=lambda mi: len(ref.encode(p, p.msgs[mi], model.default_value(p, p.msgs[mi]))))[:2]
        for n in [7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]:
            if n > 40 and len(ref.encode(p, p.msgs[tiny[0]], model.default_value(p, p.msgs[tiny[0]]))) > 24:
                continue
            items = [(mi, model.default_value(p, p.msgs[mi])) for mi in (rng.choice(tiny) for _ in range(n))]
            data = ref.stream(p, items)
            add(k, data, rng.choice([-1, -1, n, n - 1, n + 1]))
            if n > 40:
                add(k, data + b"\0" + data[:9], rng.choice([-1, n, n + 1]))
                add(k, data + bytes([255 if nm < 255 else tiny[0] + 1]), rng.choice([-1, n]))
        # every tag value alone
        for t in range(256):
            if p is many or t <= nm + 2 or t in (127, 128, 254, 255):
                add(k, bytes([t]), -1)
                if 1 <= t <= nm and (p is not many or t % 5 == 0 or t > 245):
                    add(k, ref.tagged(p, t - 1, g.message(t - 1)), -1)
    # streams with more messages than 16 bits can count
    k = ps.index(dots)
    for n in [65535, 65536, 65537, 70001] if ck.thorough else [rng.choice([65537, 70001])]:
        items = [(i * i % 7 % 2, [] if i * i % 7 % 2 == 0 else [i & 255]) for i in range(n)]
        data = ref.stream(dots, items)
        add(k, data, -1)
        add(k, data, rng.choice([n, n - 1, 65536]))
    ck.run(bs, cases)
    return ck.finish(1000, [f"{l} OK" for l in H.LANGS] + [f"{l} ERR" for l in H.LANGS if l != "assemblyscript"])
