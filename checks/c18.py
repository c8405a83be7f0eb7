"""C18: each call advances by exactly one message, wherever it starts."""
from mon import harness as H, model, ref
from mon.harness import Case


def main():
    ck = H.Check("C18", rule="a case is a sequence of messages written one after another into one buffer from some offset (with guard bytes around), or read one after another from a "
                 "buffer with bytes before and behind them; positions after every read and all bytes are compared with the reference; distinct by language, protocol and sequence; "
                 "sequences of one message at offset zero are trivial")
    rng = ck.rng
    ps = H.suite(ck, ck.budget(5, 16), core=ck.budget(2, 5), markers="any")
    bs = ck.build(ps)
    cases = []
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=3)
        nm = len(p.msgs)
        lg = model.LongGen(rng, p)
        for mi in range(nm):
            for v in (lg.message(mi, 30000) for _ in range(ck.budget(3, 12))):
                if v is None:
                    continue
                w = g.message(mi)
                e, f = ref.encode(p, p.msgs[mi], v), ref.encode(p, p.msgs[mi], w)
                cases.append(Case(k, f"Q 2 x0909{(e + f + e).hex()} {mi} {mi} {mi}", f"OK | {2 + len(e)}{H.toks(p, mi, v)} | {2 + len(e) + len(f)}{H.toks(p, mi, w)} | {2 + 2 * len(e) + len(f)}{H.toks(p, mi, v)}"))
                cases.append(Case(k, f"N 0 3 2 {mi}{H.toks(p, mi, v)} {mi}{H.toks(p, mi, w)}", f"OK {3 + len(e + f)} x{(bytes([0xAA]) * 3 + e + f + bytes([0xAA]) * 16).hex()}"))
        for it in range(ck.budget(130, 600)):
            items = [(mi, g.message(mi)) for mi in (rng.randrange(nm) for _ in range(rng.choice([1, 2, 2, 3, 6, 14])))]
            off = rng.choice([0, 1, 2, 3, 5, 8, 31])
            pre = bytes(rng.choice([0, 0xFF, 0xAA, rng.randrange(256)]) for _ in range(off))
            body = b"".join(ref.encode(p, p.msgs[mi], v) for mi, v in items)
            if len(body) > 8000:
                continue
            triv = len(items) == 1 and off == 0
            # writing
            for tag in (0, 1):
                w = ref.stream(p, items) if tag else body
                whole = b"\xAA" * off + w + b"\xAA" * 16
                cases.append(Case(k, f"N {tag} {off} {len(items)}{H.items_toks(p, items)}", f"OK {off + len(w)} x{whole.hex()}", trivial=triv))
            # reading
            post = rng.choice([b"", b"\0", b"\xff" * 9, ref.encode(p, p.msgs[0], g.message(0)), bytes(rng.randrange(256) for _ in range(5))])
            out, pos = "OK", off
            for mi, v in items:
                pos += len(ref.encode(p, p.msgs[mi], v))
                out += f" | {pos}{H.toks(p, mi, v)}"
            cases.append(Case(k, f"Q {off} x{(pre + body + post).hex()}" + "".join(f" {mi}" for mi, _ in items), out, trivial=triv))
            # one message with things around it
            mi, v = items[0]
            cases.append(H.case_D(p, k, mi, v, pre=pre, post=post, trivial=not pre and not post))
            # a stream read one or a few at a time ends exactly behind the last one read
            n = rng.randint(1, len(items))
            s = ref.stream(p, items)
            cases.append(Case(k, f"S {n} {off} x{(pre + s + post).hex()}", H.list_reply(p, items[:n], off + len(ref.stream(p, items[:n])))))
            # packing and unpacking anywhere
            pk = ref.pack(p, items)
            cases.append(Case(k, f"P {off} {len(items)}{H.items_toks(p, items)}", f"OK {len(pk)} {len(pk)} x{pk.hex()}"))
            cases.append(Case(k, f"U {off} x{(pre + pk + post).hex()}", H.list_reply(p, items, off + len(pk) - 1)))
    ck.run(bs, cases)
    return ck.finish(1000, [f"{l} OK" for l in H.LANGS])
