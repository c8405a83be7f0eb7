"""C10: the generated Zig frees what it allocates."""
from mon import harness as H, model, ref
from mon.harness import Case
from checks.c08 import mutate


def main():
    ck = H.Check("C10", rule="a case is one read, process or unpack of valid, cut or corrupted data by the Zig code with a tracking allocator: after the documented clean-up (or the "
                 "reported error) nothing may be live, and nothing may be freed twice; distinct by protocol and command")
    rng = ck.rng
    ps = H.suite(ck, ck.budget(8, 24), core=ck.budget(2, 5))
    bs = ck.build(ps, ["zig"])
    cases = []
    A = H.alarms_only_want
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=3)
        nm = len(p.msgs)
        for mi, m in enumerate(p.msgs):
            cases.append(Case(k, f"F {mi}", A))
            for _ in range(ck.budget(10, 50)):
                v = g.message(mi)
                e = ref.encode(p, m, v)
                cases.append(H.case_D(p, k, mi, v, op="I"))
                cases.append(H.case_E(p, k, mi, v))
                for c in (rng.sample(range(len(e)), min(len(e), 12))):
                    cases.append(Case(k, f"D {mi} 0 x{e[:c].hex()}", "ERR"))
            for _ in range(ck.budget(40, 400)):
                d = mutate(rng, p, mi, g, [b"\1\0\0\0\2\0\0\0\3"])
                if len(d) < 4000:
                    cases.append(Case(k, f"D {mi} 0 x{d.hex()}", A))
        lg = model.LongGen(rng, p)
        for mi, m in enumerate(p.msgs):
            for v in (lg.message(mi, 40000) for _ in range(ck.budget(8, 24))):
                if v is not None:
                    e = ref.encode(p, m, v)
                    cases += [H.case_E(p, k, mi, v), H.case_D(p, k, mi, v, op="I"), Case(k, f"D {mi} 0 x{e[:rng.randrange(len(e))].hex()}", "ERR"),
                              Case(k, f"U 0 x{ref.pack(p, [(mi, v), (mi, v)]).hex()}", A)]
        for _ in range(ck.budget(80, 400)):
            items = [(mi, g.message(mi)) for mi in (rng.randrange(nm) for _ in range(rng.choice([0, 1, 2, 4, 9])))]
            st, pk = ref.stream(p, items), ref.pack(p, items)
            cases.append(Case(k, f"S {rng.choice([-1, -1, 1, 2])} 0 x{st.hex()}", A))
            cases.append(Case(k, f"U 0 x{pk.hex()}", A))
            cases.append(Case(k, f"P 0 {len(items)}{H.items_toks(p, items)}", A))
            for what, data in (("S -1 0", st), ("U 0", pk)):
                for _ in range(3):
                    if data:
                        cases.append(Case(k, f"{what} x{data[:rng.randrange(len(data))].hex()}", A))
                        b = bytearray(data)
                        for _ in range(rng.choice([1, 2, 4])):
                            b[rng.randrange(len(b))] = rng.choice([0, 1, 0xFF, 0x80, rng.randrange(256)])
                        cases.append(Case(k, f"{what} x{bytes(b).hex()}", A))
    ck.run(bs, cases)
    return ck.finish(1000, ["zig OK", "zig ERR"])
