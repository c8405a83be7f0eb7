"""C28: independent calls on different threads do not disturb each other."""
from mon import harness as H, model, ref
from mon.harness import Case

LABELS = ["c:tsan", "go:race", "zig:tsan", "csharp", "rust"]


def main():
    ck = H.Check("C28", rule="a case is one set of messages that four threads read, write, pack, unpack, process, cut and create afresh at the same time, each thread on its own messages and in its own "
                 "order, over shared encoded bytes (race detectors on in C, Go and Zig); distinct by language, protocol and set")
    rng = ck.rng
    ps = H.suite(ck, ck.budget(4, 12), core=ck.budget(2, 3))
    bs = ck.build(ps, LABELS)
    cases = []
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=4)
        lg = model.LongGen(rng, p)
        nm = len(p.msgs)
        for it in range(ck.budget(25, 150)):
            # all messages of the protocol, one of them many times, or some at random
            mis = list(range(nm)) if it % 3 == 0 else [rng.randrange(nm)] * rng.randint(2, 8) if it % 3 == 1 else [rng.randrange(nm) for _ in range(rng.randint(1, 12))]
            mis = rng.sample(mis, min(len(mis), 24))
            s = ""
            for mi in mis:
                v = (lg.message(mi, 3000) if it % 5 == 4 else None) or g.message(mi)
                e = ref.encode(p, p.msgs[mi], v)
                d = ref.encode(p, p.msgs[mi], model.default_value(p, p.msgs[mi]))
                s += f" {mi} x{mi + 1:02x}{e.hex()} x{mi + 1:02x}{d.hex()}"
            cases.append(Case(k, f"Y {len(mis)}{s}", "OK"))
    ck.run(bs, cases)
    ck.count("thread runs", 4 * ck.evals)
    return ck.finish(300, [f"{l} OK" for l in LABELS])
