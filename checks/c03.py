"""C03: sizes reported before writing are the sizes written."""
from mon import harness as H, model, ref
from mon.harness import Case


def main():
    ck = H.Check("C03", rule="a case is one message (its reported size against the bytes its own writer produced, tagged and untagged; also after it was measured, written and given other contents) or one list of messages "
                 "(its reported packed size against the bytes packing produced); distinct by language, protocol and value")
    ps = H.suite(ck, ck.budget(6, 18), core=ck.budget(2, 5), big=ck.thorough, markers="any")
    bs = ck.build(ps)
    rng = ck.rng

    def judge(label, c, r):
        m = H.ALARM.search(r)
        if m:
            return f"alarm {m.group(0)}"
        f = r.split(" ")
        if f[0] != "OK":
            return "reported an error on a valid message"
        if c.text[0] in "EV":
            size, tagged, untagged = int(f[1]), int(f[2]), int(f[3])
            if size != untagged or len(f[6]) - 1 != 2 * size:
                return f"reported size {size}, wrote {untagged}"
            if tagged != size + 1:
                return f"reported size {size}, wrote {tagged} with a tag"
            if f[4] != "1":
                return "repeated sizing or writing differs"
        elif c.text[0] == "P":
            if f[1] != f[2] or len(f[3]) - 1 != 2 * int(f[1]):
                return f"reported packed size {f[1]}, wrote {f[2]}"
        return None
    cases = []
    for k, p in enumerate(ps):
        cap = min(model.maxlen(p.lst), 400)
        scap = min(model.maxlen(p.sst), 900)
        g = model.ValueGen(rng, p)
        g2 = model.ValueGen(rng, p, list_len=lambda r, d: r.choice([0, 1, 5, r.randint(0, cap)]) if d == 0 else r.choice([0, 1, 2, 3]),
                            str_fn=lambda r: clip("".join(r.choice("aé日🙂\0") for _ in range(r.choice([0, 1, 7, 200]))), scap))
        for mi, m in enumerate(p.msgs):
            for i in range(ck.budget(26, 120) if m.members else 1):
                v = (g2 if i % 4 == 3 else g).message(mi)
                cases.append(Case(k, f"E {mi}{H.toks(p, mi, v)}", None, trivial=not m.members))
        for mi, m in enumerate(p.msgs):
            for i in range(ck.budget(8, 40) if m.members else 1):
                # measured and written before, then filled with something else: the size is that of what it holds now
                old, v = (g2 if i % 4 == 3 else g).message(mi), g.message(mi)
                cases.append(H.case_V(p, k, mi, v, old, i % 2, trivial=not m.members))
        lg = model.LongGen(rng, p)
        for mi, m in enumerate(p.msgs):
            for v in (lg.message(mi) for _ in range(ck.budget(4, 20))):
                if v is not None:
                    cases.append(Case(k, f"E {mi}{H.toks(p, mi, v)}", None))
        for _ in range(ck.budget(25, 120)):
            items = [(mi, g.message(mi)) for mi in (rng.randrange(len(p.msgs)) for _ in range(rng.choice([0, 1, 2, 5, 17])))]
            cases.append(Case(k, f"P {rng.choice([0, 0, 3])} {len(items)}{H.items_toks(p, items)}", None))
    ck.run(bs, cases, judge)
    return ck.finish(500, [f"{l} OK" for l in H.LANGS])


def clip(s, n):
    b = s.encode()
    return b if len(b) <= n else b""
