"""C04: every strict prefix of an encoding is unparsable."""
from mon import harness as H, model, ref
from mon.harness import Case


def main():
    ck = H.Check("C04", rule="a case is one strict prefix of the encoding of one message, read by one language from a buffer of exactly that length (and, where the "
                 "language can, from a view inside a larger buffer of plausible bytes); distinct by language, protocol and prefix bytes")
    ps = H.suite(ck, ck.budget(4, 12), core=ck.budget(2, 4))
    bs = ck.build(ps)
    rng = ck.rng
    cases = []
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=3)
        for mi, m in enumerate(p.msgs):
            if not m.members:
                continue
            for i in range(ck.budget(5, 20)):
                v = g.message(mi)
                spans = []
                e = ref.encode(p, m, v, spans)
                if not e:
                    continue
                cuts = set(range(len(e))) if len(e) <= ck.budget(90, 400) else set()
                if not cuts:
                    # every boundary between two values and one byte to each side, and a sample of the rest
                    for a, b, *_ in spans:
                        cuts |= {a, a + 1, b - 1}
                    cuts = {c for c in cuts if 0 <= c < len(e)}
                    cuts = set(rng.sample(sorted(cuts), min(len(cuts), ck.budget(70, 400)))) | set(rng.sample(range(len(e)), 20)) | {0, len(e) - 1}
                for c in sorted(cuts):
                    pre = rng.choice([b"", b"", b"", b"\x01\x00\x02"])
                    cases.append(Case(k, f"D {mi} {len(pre)} x{(pre + e[:c]).hex()}", "ERR"))
                cases.append(H.case_D(p, k, mi, v))        # and the whole of it is readable
    ck.run(bs, cases)
    return ck.finish(1000, [f"{l} ERR" for l in H.LANGS] + [f"{l} OK" for l in H.LANGS])
