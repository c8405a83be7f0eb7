"""C25: however large the counts and lengths in the input, decoding takes memory in proportion to the input."""
from mon import harness as H, model, ref
from mon.harness import Case
from checks.c08 import mutate

BASE = 256 * 1024       # what any call may take
PER = 2000              # and this much per byte of input


def claims(t, p, elem):
    """values of a length of wire type t worth claiming"""
    lo, hi = model.RANGE[t]
    out = [hi, hi - 1, hi // 2, hi // 2 + 1, 2**31 - 1, 2**31, 2**30, 2**28, 2**26, 2**24, 2**22, 2**20, 300000, 65535, 20000]
    return [c for c in dict.fromkeys(out) if 1000 < c <= hi]


def main():
    ck = H.Check("C25", rule="a case is one call of one language's reader (message, stream or packed list) on one input while the driver's allocator, the runtime's allocation counter or "
                 "a hook on the array constructors measures what the call takes; distinct by language, protocol and input")
    rng = ck.rng
    ps = H.suite(ck, ck.budget(4, 10), core=1, markers=None)
    for lst, sst in (("uint32", "uint32"), ("uint64", "uint64"), ("uint32", "uint64"), ("int32", "int64")):
        ps.append(model.gen_proto(rng, f"Wide{lst}{sst}", lst, sst))
        ps.append(model.core_proto(f"WCore{lst}{sst}", lst, sst))
    ps.append(model.gen_proto(rng, None, "uint32", "uint16"))
    bs = ck.build(ps)
    cases = []
    seen = [0]

    def add(k, head, data, key):
        limit = BASE + PER * len(data)

        def want(label, r):
            m = H.ALARM.search(r)
            if m:
                return f"alarm {m.group(0)}"
            f = r.split(" ")
            if len(f) < 2 or f[0] not in ("OK", "ERR"):
                return "no measurement"
            seen[0] = max(seen[0], int(f[1]) / limit)
            n = label.partition(":")[0]
            ck.counters[f"largest use in percent of the limit, {n}"] = max(ck.counters.get(f"largest use in percent of the limit, {n}", 0), int(100 * int(f[1]) / limit))
            return None if int(f[1]) <= limit else f"took {int(f[1])} bytes of memory for {len(data)} bytes of input"
        cases.append(Case(k, f"M {head} x{data.hex()}", want, key=(key, data)))
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=3)
        for mi, m in enumerate(p.msgs):
            for _ in range(ck.budget(6, 40)):
                spans = []
                e = ref.encode(p, m, g.message(mi), spans)
                if len(e) > 3000:
                    continue
                add(k, f"D {mi}", e, "valid")
                ls = [s for s in spans if s[2] in ("listlen", "strlen")]
                for a, z, kind, path, t in rng.sample(ls, min(len(ls), ck.budget(4, 12))):
                    for c in rng.sample(claims(t, p, path), min(len(claims(t, p, path)), ck.budget(2, 5))):
                        b = e[:a] + ref.enc_base(t, c) + e[z:]
                        b = b[:z] if rng.random() < 0.3 else b
                        add(k, f"D {mi}", b, kind)
                        tag = bytes([mi + 1]) + b
                        x = rng.random()
                        if x < 0.15:
                            add(k, "S -1", tag, kind)
                        elif x < 0.3:
                            add(k, f"S {rng.choice([1, 5, 2**31 - 1])}", tag, kind)
                        elif x < 0.45:
                            add(k, "U", b"BSCI" + rng.choice([1, 2, 2**31 - 1, 2**24]).to_bytes(4, "little") + tag, kind)
            for _ in range(ck.budget(6, 60)):
                d = mutate(rng, p, mi, g, [b"\1\0\0\0\2\0\0\0\3"])
                if len(d) < 3000:
                    add(k, f"D {mi}", bytes(d), "mutated")
        # the number of messages a packed list claims
        for _ in range(ck.budget(3, 12)):
            items = [(mi, g.message(mi)) for mi in (rng.randrange(len(p.msgs)) for _ in range(rng.choice([0, 1, 3])))]
            st = ref.stream(p, items)
            for c in (2**32 - 1, 2**31 - 1, 2**31, 2**28, 2**24, 2**20, 65536):
                add(k, "U", b"BSCI" + c.to_bytes(4, "little") + st[:2000], "count")
                if c < 2**31:
                    add(k, f"S {c}", st[:2000], "count")
        lg = model.LongGen(rng, p)
        for mi in range(len(p.msgs)):
            v = lg.message(mi, 40000)
            if v is not None:
                e = ref.encode(p, p.msgs[mi], v)
                add(k, f"D {mi}", e, "long")
                add(k, f"S -1", ref.stream(p, [(mi, v)] * 3), "long")
                add(k, f"U", ref.pack(p, [(mi, v)] * 3), "long")
    ck.run(bs, cases)
    return ck.finish(1000, [f"{l} {w}" for l in H.LANGS for w in ("OK", "ERR")])
