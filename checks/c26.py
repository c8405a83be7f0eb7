"""C26: the generated code does the same on every machine and however it is compiled."""
from mon import harness as H, model, ref
from mon.harness import Case
from checks.c06 import want_stream
from checks.c07 import want_unpack
from checks.c08 import mutate, want

QUICK = ["c:m32", "c:o3", "c:uchar", "c:short", "zig:m32", "zig:fast", "go:m32", "rust:release", "csharp:release", "typescript:es2020", "typescript:min"]
MORE = ["c:cpp", "c:plain", "zig:safe", "zig:small32"]
SLOW = ["rust:be", "rust:m32"]


def main():
    ck = H.Check("C26", rule="a case is one command (write, read, refill, stream, pack, unpack, defaults, on valid, truncated and corrupted data) answered by one language's code built for one machine "
                 "or with one set of compiler options; distinct by machine, protocol and command")
    rng = ck.rng
    ps = H.suite(ck, ck.budget(3, 8), core=1)
    labels = QUICK + (MORE if ck.thorough else rng.sample(MORE, 1))
    jobs = [(ps, labels, ck.budget(8, 60))]
    # interpreted machines: fewer protocols, fewer commands
    few = [ps[0], rng.choice(ps[1:])]
    jobs.append((few, SLOW if ck.thorough else ["rust:be", "rust:m32"], ck.budget(2, 12)))
    for ji, (pp, ls, n) in enumerate(jobs):
        bs = ck.build(pp, ls, tag=f"j{ji}")
        cases = []
        for k, p in enumerate(pp):
            g = model.ValueGen(rng, p, max_list=3)
            nm = len(p.msgs)
            msgs = range(nm) if ji == 0 or nm < 5 else rng.sample(range(nm), 4)
            for mi in msgs:
                d = model.default_value(p, p.msgs[mi])
                e = ref.encode(p, p.msgs[mi], d).hex()
                cases.append(Case(k, f"F {mi}", f"OK {len(e) // 2} x{e} x{e} {mi}{H.toks(p, mi, d)} /{H.toks(p, mi, d)}"))
                for _ in range(n):
                    v = g.message(mi)
                    cases.append(H.case_E(p, k, mi, v))
                    cases.append(H.case_D(p, k, mi, v, pre=bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 3]))), op=rng.choice("DI")))
                    if rng.random() < 0.4:
                        cases.append(H.case_V(p, k, mi, g.message(mi), v, rng.randrange(2)))
                    b = ref.encode(p, p.msgs[mi], v)
                    if b:
                        cases.append(Case(k, f"D {mi} 0 x{b[:rng.randrange(len(b))].hex()}", "ERR"))
                    for _ in range(3 if ji == 0 else 1):
                        x = bytes(mutate(rng, p, mi, g, [b"\1\0\0\0\2\0\0\0\3"]))
                        if len(x) < 2000:
                            cases.append(Case(k, f"D {mi} 0 x{x.hex()}", want(p, mi, x, 0)[0]))
            for _ in range(n):
                items = [(mi, g.message(mi)) for mi in (rng.randrange(nm) for _ in range(rng.choice([0, 1, 2, 5])))]
                st, pk = ref.stream(p, items), ref.pack(p, items)
                cases.append(Case(k, f"P 0 {len(items)}{H.items_toks(p, items)}", f"OK {len(pk)} {len(pk)} x{pk.hex()}"))
                for what, data in (("S", st), ("U", pk)):
                    for hurt in (False, True) if data else (False,):
                        b = bytearray(data)
                        if hurt:
                            b[rng.randrange(len(b))] = rng.choice([0, 1, 0xFF, 0x80, rng.randrange(256)])
                        b = bytes(b)
                        if hurt:        # which bytes of text are text differs by language
                            cases.append(Case(k, f"{what} {'-1 0' if what == 'S' else 0} x{b.hex()}", H.alarms_only_want))
                        elif what == "S":
                            cases.append(Case(k, f"S -1 0 x{b.hex()}", want_stream(p, b, -1, 0)))
                        else:
                            cases.append(Case(k, f"U 0 x{b.hex()}", want_unpack(p, b)))
            if ji == 0:
                lg = model.LongGen(rng, p)
                for mi in range(nm):
                    v = lg.message(mi, 40000)
                    if v is not None:
                        cases += [H.case_E(p, k, mi, v), H.case_D(p, k, mi, v)]
        ck.run(bs, cases)
    return ck.finish(1000, [f"{l} OK" for l in QUICK] + (["rust:be OK", "rust:m32 OK"] if not any(k.startswith("unavailable") for k in ck.counters) else []))
