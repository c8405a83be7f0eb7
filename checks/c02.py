"""C02: the bytes are the documented encoding, in every language."""
from mon import harness as H, model, ref
from mon.harness import Case


def main():
    ck = H.Check("C02", rule="a case is one message of one protocol written (or the reference bytes of it read) by one language and compared with the "
                 "reference encoding; distinct by language, protocol and value; trivial when the message has no members")
    ps = H.suite(ck, ck.budget(4, 14), core=ck.budget(2, 4), markers="any")
    # tags up to 255
    many = model.Proto("Many", [], [], [model.Struct(f"Msg{i}", [model.Member("x", "int16")] if i % 2 else [model.Member("names", "string", True)]) for i in range(255)])
    ps.append(many)
    bs = ck.build(ps)
    cases = []
    for k, p in enumerate(ps):
        g = model.ValueGen(ck.rng, p)
        reps = 1 if p is many else ck.budget(25, 120)
        for mi in range(len(p.msgs)):
            for _ in range(reps if p.msgs[mi].members else 1):
                v = g.message(mi)
                tr = not p.msgs[mi].members
                cases.append(H.case_E(p, k, mi, v, trivial=tr))
                cases.append(H.case_D(p, k, mi, v, trivial=tr))
    ck.run(bs, cases)
    return ck.finish(500, [f"{l} OK" for l in H.LANGS])
