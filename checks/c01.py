"""C01: write with a language, read back with the same language, write again."""
from mon import harness as H, model, ref, common
from mon.harness import Case


def main():
    ck = H.Check("C01", rule="a case is one message value of one protocol: written by a language, its own bytes read back by the same language at offset 0 and behind "
                 "a prefix, the decoded value compared with the original field by field, and written again; distinct by language, protocol and value; "
                 "messages without members are trivial")
    ps = H.suite(ck, ck.budget(5, 16), core=ck.budget(2, 5), big=ck.thorough, markers="any")
    bs = ck.build(ps)
    rng = ck.rng
    vals = []
    for k, p in enumerate(ps):
        cap = min(model.maxlen(p.lst), 700)
        gens = [model.ValueGen(rng, p), model.ValueGen(rng, p, max_list=9),
                model.ValueGen(rng, p, list_len=lambda r, d: r.choice([0, 1, min(cap, r.randint(100, cap))]) if d == 0 else r.choice([0, 1, 2, 3]) if d < 3 else r.choice([0, 1]))]
        lg = model.LongGen(rng, p)
        for mi, m in enumerate(p.msgs):
            for i in range(ck.budget(24, 110) if m.members else 1):
                g = gens[2] if i % 12 == 11 else gens[i % 2]
                v = g.message(mi)
                if len(ref.encode(p, m, v)) < 60000:
                    vals.append((k, mi, v))
            for _ in range(ck.budget(4, 16)):
                v = lg.message(mi)
                if v is not None:
                    vals.append((k, mi, v))
            # all-extreme values
            for ext in (0, 1):
                vals.append((k, mi, extreme(p, m, ext)))
    first = [Case(k, f"E {mi}{H.toks(ps[k], mi, v)}", None) for k, mi, v in vals]

    def written(label, c, r):
        f = r.split(" ")
        if H.ALARM.search(r):
            return f"alarm {H.ALARM.search(r).group(0)} while writing"
        if f[0] != "OK":
            return "reported an error writing a valid message"
        return None
    results = ck.run(bs, first, written)
    # second phase: each language reads its own bytes
    for (label, b), (replies, _) in zip(bs.items(), results):
        cases = []
        for (k, mi, v), r in zip(vals, replies):
            f = (r or "").split(" ")
            if f[0] != "OK" or len(f) < 7:
                continue
            hexb = f[6][1:]
            n = len(hexb) // 2
            want_t = H.toks(ps[k], mi, v)
            pre = rng.choice(["", "", "41", "ff00ff", "0102030405060708"])
            cases.append(Case(k, f"D {mi} {len(pre) // 2} x{pre}{hexb}", f"OK {len(pre) // 2 + n}{want_t}", trivial=not want_t))
            # the decoded value is exactly the original (checked above), so writing it again must give the same bytes:
            # ask again in a later command, after everything else this process has done
            if rng.random() < 0.3:
                cases.append(Case(k, f"E {mi}{want_t}", r, key=("again", mi, hexb), trivial=not want_t))
        ck.run({label: b}, cases)
    return ck.finish(500, [f"{l} OK" for l in H.LANGS])


def extreme(p, st, hi):
    def of(t):
        kd = p.kind(t)
        if kd == "base":
            if t == "bool":
                return hi
            if t == "float":
                return 0x7F7FFFFF if hi else 0xFF7FFFFF
            if t == "double":
                return 0x7FEFFFFFFFFFFFFF if hi else 0xFFEFFFFFFFFFFFFF
            return model.RANGE[t][hi]
        if kd == "string":
            return ("\U0010FFFF" * (31 if hi else 0)).encode()
        if kd == "enum":
            vs = [v for _, v in p.enums[t].values]
            return max(vs) if hi else min(vs)
        return extreme(p, p.structs[t], hi)
    return [[of(m.type)] * (3 if hi else 1) if m.is_list else of(m.type) for m in st.members]
