"""C11: every allocation of every call fails once."""
from mon import harness as H, model, ref
from mon.harness import Case


def main():
    ck = H.Check("C11", level="fault_enumeration", rule="a case is one call (create, read, process, unpack) on one input, repeated with its 1st, 2nd, ... allocation failing until it runs "
                 "without a failure: each failing run must report an allocation failure and leak nothing, the last must succeed; distinct by language, protocol and command; "
                 "calls that allocate nothing are trivial")
    rng = ck.rng
    ps = H.suite(ck, ck.budget(6, 20), core=ck.budget(2, 5))
    bs = ck.build(ps, ["c", "c:msan", "zig"])
    cases = []
    faults = {"c": 0, "c:msan": 0, "zig": 0}

    def want(label, r):
        m = H.ALARM.search(r)
        if m:
            return r[:160] if r.startswith("BAD") else f"alarm {m.group(0)}"
        if not r.startswith("OK "):
            return "did not finish the enumeration"
        n = int(r.split()[1])
        faults[label] += n
        ck.evals += n
        return None
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=3)
        nm = len(p.msgs)
        for mi, m in enumerate(p.msgs):
            cases.append(Case(k, f"A C {mi}", want, langs=["c"]))
            for _ in range(ck.budget(12, 60)):
                v = g.message(mi)
                e = ref.encode(p, m, v)
                if len(e) < 3000:
                    cases.append(Case(k, f"A D {mi} x{e.hex()}", want, trivial=p.is_simple_msg(m)))
        for _ in range(ck.budget(40, 200)):
            items = [(mi, g.message(mi)) for mi in (rng.randrange(nm) for _ in range(rng.choice([0, 1, 2, 4, 9])))]
            st, pk = ref.stream(p, items), ref.pack(p, items)
            if len(st) < 4000:
                cases.append(Case(k, f"A S {rng.choice([-1, -1, 2])} x{st.hex()}", want))
                cases.append(Case(k, f"A U x{pk.hex()}", want))
    ck.run(bs, cases)
    for l, n in faults.items():
        ck.counters["faults injected " + l] = n
    return ck.finish(500, ["faults injected c", "faults injected c:msan", "faults injected zig"])
