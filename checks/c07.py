"""C07: packed lists of messages."""
import struct as S
from mon import harness as H, model, ref
from mon.harness import Case


def want_unpack(p, data, off=0):
    try:
        items, pos, _ = ref.unpack(p, data[off:])
        ok = H.list_reply(p, items, off + pos)
    except ref.Bad as e:
        err = e.kind

        def judge(label, r):
            m = H.ALARM.search(r)
            if m:
                return f"alarm {m.group(0)}"
            if label.startswith("assemblyscript") and err == "enum":
                return None
            return None if r.startswith("ERR") else f"bad packed data ({err}) accepted"
        return judge
    return lambda label, r: H.default_judge(label, Case(0, "", ok), r)


def main():
    ck = H.Check("C07", rule="a case is one list of messages packed by one language and compared with the reference bytes, or one packed buffer (sound, with a corrupted header, "
                 "a count beyond the messages present, an unknown tag, or cut) unpacked by one language; distinct by language, protocol and bytes")
    ps = H.suite(ck, ck.budget(4, 12), core=ck.budget(2, 4))
    dots = model.Proto("Dots", [], [], [model.Struct("Dot", []), model.Struct("Dash", [model.Member("x", "byte")])])
    ps.append(dots)
    bs = ck.build(ps)
    rng = ck.rng
    cases = []
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=2)
        nm = len(p.msgs)

        def U(data, off=0):
            cases.append(Case(k, f"U {off} x{data.hex()}", want_unpack(p, data, off)))
        for it in range(ck.budget(70, 300)):
            n = rng.choice([0, 1, 1, 2, 3, 6, 40 if it % 20 == 0 else 2])
            items = [(mi, g.message(mi)) for mi in (rng.randrange(nm) for _ in range(n))]
            data = ref.pack(p, items)
            if len(data) > 8000:
                continue
            cases.append(Case(k, f"P {rng.choice([0, 0, 1, 7])} {n}{H.items_toks(p, items)}", f"OK {len(data)} {len(data)} x{data.hex()}"))
            pre = rng.choice([b"", b"", b"\x42", b"BSCI\1\0\0\0"])
            U(pre + data, len(pre))
            U(data[:-1])                         # the terminator is not needed to read the messages
            U(data + bytes(rng.randrange(256) for _ in range(rng.randint(1, 9))))
            # header
            i = rng.randrange(4)
            h = bytearray(data)
            h[i] = rng.choice([h[i] ^ 0x20, 0, h[i] + 1, rng.randrange(256)])
            U(bytes(h))
            if it % 7 == 0:
                for hd in (b"", b"B", b"BSC", b"BSCI", b"BSCI\0", b"BSCI\0\0\0", b"ICSB\0\0\0\0", b"bsci\0\0\0\0", b"\0\0\0\0\0\0\0\0", b"BSCI\0\0\0\0", b"BSCI\0\0\0\0\0", b"BSCI\1\0\0\0",
                           b"BSCI\1\0\0\0\0", b"BSCI\xff\xff\xff\xff", b"BSCI\xff\xff\xff\xff\0", b"BSCI\0\0\0\x80\0", b"BSCI\xff\xff\xff\x7f\0", b"BSCI\0\0\0\0" + ref.stream(p, items)):
                    U(hd)
            # count
            for c in {n + 1, n + rng.randint(1, 300), 2**31 - 1, 2**31, 2**32 - 1, n + 256, n + 65536}:
                if rng.random() < 0.5:
                    U(data[:4] + S.pack("<I", c) + data[8:])
            # an early terminator, an unknown tag, a cut
            if n:
                j = rng.randrange(n)
                st = [ref.tagged(p, mi, v) for mi, v in items]
                U(data[:8] + b"".join(st[:j]) + b"\0" + b"".join(st[j:]) + b"\0")
                if nm < 255:
                    U(data[:8] + b"".join(st[:j]) + bytes([rng.randint(nm + 1, 255)]) + st[j][1:] + b"".join(st[j + 1:]) + b"\0")
                end = len(data) - 1
                cuts = {8, 7, 9, end - 1} | {8 + sum(map(len, st[:i])) for i in range(n)} | {rng.randrange(0, end) for _ in range(6)}
                for c in sorted(cuts):
                    if 0 <= c < end:
                        cases.append(Case(k, f"U 0 x{data[:c].hex()}", "ERR"))
    k = ps.index(dots)
    for n in [255, 256, 257, 1000, 4097] + ([65535, 65536, 70001] if ck.thorough else [rng.choice([65536, 70001])]):
        items = [(i * i % 7 % 2, [] if i * i % 7 % 2 == 0 else [i & 255]) for i in range(n)]
        data = ref.pack(dots, items)
        cases.append(Case(k, f"P 0 {n}{H.items_toks(dots, items)}", f"OK {len(data)} {len(data)} x{data.hex()}"))
        cases.append(Case(k, f"U 0 x{data.hex()}", want_unpack(dots, data)))
        for d in (data[:4] + S.pack("<I", n + 1) + data[8:], data[:8] + data[10:]):
            cases.append(Case(k, f"U 0 x{d.hex()}", want_unpack(dots, d)))
    ck.run(bs, cases)
    return ck.finish(1000, [f"{l} OK" for l in H.LANGS] + [f"{l} ERR" for l in H.LANGS])
