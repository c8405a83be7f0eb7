"""C21: encoding leaves the message alone, also from several threads; decoded data stands alone."""
from mon import harness as H, model, ref
from mon.harness import Case


def main():
    ck = H.Check("C21", rule="a case is one message sized, written and packed repeatedly and by several threads at once (race detectors on in C and Go) whose members and bytes must not "
                 "change, one message written, refilled with other contents and written again, or one decoded message compared after its source buffer was overwritten; distinct by language, protocol and value")
    rng = ck.rng
    ps = H.suite(ck, ck.budget(4, 12), core=ck.budget(2, 4), markers="any")
    bs = ck.build(ps, H.LANGS + ["go:race", "c:tsan"])
    cases = []
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=3)
        for mi, m in enumerate(p.msgs):
            for it in range(ck.budget(18, 90) if m.members else 1):
                v = g.message(mi)
                e = ref.encode(p, m, v)
                if len(e) > 6000:
                    continue
                tr = not m.members
                cases.append(Case(k, f"C {mi}{H.toks(p, mi, v)}", f"OK 1 x{mi + 1:02x}{e.hex()}{H.toks(p, mi, v)}", trivial=tr))
                cases.append(H.case_V(p, k, mi, v, g.message(mi), it % 2, trivial=tr) if it % 2 else H.case_E(p, k, mi, v, trivial=tr))
                if it % 4 == 1:
                    cases.append(H.case_V(p, k, mi, v, g.message(mi), 0, trivial=tr))
                cases.append(H.case_D(p, k, mi, v, op="I", trivial=tr, pre=rng.choice([b"", b"\5\5\5"]), post=rng.choice([b"", b"\7"])))
        lg = model.LongGen(rng, p)
        for mi, m in enumerate(p.msgs):
            for v in (lg.message(mi, 20000) for _ in range(ck.budget(3, 12))):
                if v is not None:
                    e = ref.encode(p, m, v)
                    cases.append(Case(k, f"C {mi}{H.toks(p, mi, v)}", f"OK 1 x{mi + 1:02x}{e.hex()}{H.toks(p, mi, v)}"))
                    cases.append(H.case_D(p, k, mi, v, op="I", post=b"\7\7"))
        for it in range(ck.budget(40, 200)):
            items = [(mi, g.message(mi)) for mi in (rng.randrange(len(p.msgs)) for _ in range(rng.choice([1, 2, 5])))]
            s, pk = ref.stream(p, items), ref.pack(p, items)
            # the drivers overwrite the source before they look at what was decoded
            cases.append(Case(k, f"S -1 0 x{s.hex()}", H.list_reply(p, items, len(s))))
            cases.append(Case(k, f"U 0 x{pk.hex()}", H.list_reply(p, items, len(pk) - 1)))
    ck.run(bs, cases)
    return ck.finish(1000, [f"{l} OK" for l in H.LANGS + ["go:race", "c:tsan"]])
