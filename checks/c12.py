"""C12: fresh messages hold the documented defaults."""
from mon import harness as H, model, ref
from mon.harness import Case
from checks.c05 import enum_proto


def main():
    ck = H.Check("C12", rule="a case is a freshly made message of one type in one language (two instances, another one of the same type filled in between): its members, its size and its "
                 "encoding against the documented defaults; distinct by language, protocol, type and point in the history; messages without members are trivial")
    rng = ck.rng
    ps = [enum_proto(rng, "EnumsA"), enum_proto(rng, "EnumsB", *H.size_pair(rng))] + H.suite(ck, ck.budget(9, 36), core=ck.budget(2, 5), big=True, markers="any")
    bs = ck.build(ps)
    cases = []
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p)
        order = list(range(len(p.msgs))) * 3
        rng.shuffle(order)
        for n, mi in enumerate(order):
            m = p.msgs[mi]
            d = model.default_value(p, m)
            e = ref.encode(p, m, d)
            t = H.toks(p, mi, d)
            cases.append(Case(k, f"F {mi}", f"OK {len(e)} x{e.hex()} x{e.hex()} {mi}{t} /{t}", key=("F", mi, n), trivial=not m.members))
            cases.append(H.case_D(p, k, mi, d, key=("D", mi, n), trivial=not m.members))
            # other messages come and go in between
            j = rng.randrange(len(p.msgs))
            cases.append(H.case_E(p, k, j, g.message(j)))
            cases.append(H.case_D(p, k, j, g.message(j)))
    ck.run(bs, cases)
    return ck.finish(500, [f"{l} OK" for l in H.LANGS])
