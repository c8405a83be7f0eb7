"""C09: memory safety and ownership of the generated C, under sanitizers and a checking allocator."""
from mon import harness as H, model, ref
from mon.harness import Case
from checks.c08 import mutate


def life(rng, p, g, n):
    """a random program over message variables and the exact output it must have"""
    cmd, out = [], []
    slots = {}
    for _ in range(n):
        free = [i for i in range(8) if i not in slots]
        op = rng.choice("cdrrffwwwvyyl")
        if op in "cd" and free:
            s, mi = rng.choice(free), rng.randrange(len(p.msgs))
            cmd.append(f"{op} {s} {mi}")
            slots[s] = [mi, model.default_value(p, p.msgs[mi]), set()]
        elif op == "r" and free:
            s, mi = rng.choice(free), rng.randrange(len(p.msgs))
            if rng.random() < 0.5:
                v = g.message(mi)
                e = ref.encode(p, p.msgs[mi], v)
            else:
                e = mutate(rng, p, mi, g, [b"\0\0\0\0\0\0\0\0"])
                if len(e) > 2000:
                    continue
            try:
                v, pos, bad = ref.decode(p, p.msgs[mi], e)
            except ref.Bad:
                v = None
            cmd.append(f"r {s} {mi} x{e.hex()}")
            if v is None:
                out.append("E")
            else:
                out.append(str(pos))
                slots[s] = [mi, v, None]
        elif op == "f":
            c = [s for s, x in slots.items() if x[2] is not None]
            if not c:
                continue
            s = rng.choice(c)
            mi, v, done = slots[s]
            ms = p.msgs[mi].members
            todo = [i for i in range(len(ms)) if i not in done and i < 64]
            pick = [i for i in todo if rng.random() < 0.6]
            nv = g.message(mi)
            mask, tk = 0, []
            for i in pick:
                mask |= 1 << i
                v[i] = nv[i]
                done.add(i)
                tk += ref.tokens(p, model.Struct("", [ms[i]]), [nv[i]])
            cmd.append(f"f {s} {mask}" + "".join(" " + t for t in tk))
        elif op in "wvy" and slots:
            s = rng.choice(list(slots))
            mi, v, _ = slots[s]
            cmd.append(f"{op} {s}")
            if op == "w":
                out.append("x" + ref.encode(p, p.msgs[mi], v).hex())
            elif op == "v":
                out.append(f"{mi}{H.toks(p, mi, v)}")
            else:
                del slots[s]
        elif op == "l" and slots:
            pick = [rng.choice(list(slots)) for _ in range(rng.randint(0, 5))]
            cmd.append(f"l {len(pick)}" + "".join(f" {s}" for s in pick))
            items = [(slots[s][0], slots[s][1]) for s in pick]
            out.append("x" + ref.pack(p, items).hex())
            out.append(H.list_reply(p, items, 0)[5:])
    return "L " + " ".join(cmd), "OK" + "".join(" " + o for o in out)


def main():
    ck = H.Check("C09", rule="a case is one command (create, fill, size, write, read, process, pack, unpack, clean up, destroy, or a random program of these over eight message "
                 "variables) executed by the C code under one instrumentation (ASan+UBSan, MSan, ASan+UBSan compiled as C++), every allocation going through a checking allocator; "
                 "distinct by instrumentation, protocol and command")
    rng = ck.rng
    ps = H.suite(ck, ck.budget(4, 12), core=ck.budget(2, 4))
    ps.append(model.gen_proto(rng, None))
    bs = ck.build(ps, ["c", "c:msan", "c:cpp"])
    cases = []
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=3)
        nm = len(p.msgs)
        for mi, m in enumerate(p.msgs):
            cases.append(Case(k, f"F {mi}", H.alarms_only_want))
            for _ in range(ck.budget(8, 40)):
                v = g.message(mi)
                e = ref.encode(p, m, v)
                cases.append(H.case_E(p, k, mi, v))
                cases.append(H.case_D(p, k, mi, v, op="I"))
                if len(e) < 400:
                    cases.append(Case(k, f"W {rng.randint(0, 1)} {mi}{H.toks(p, mi, v)}", H.alarms_only_want))
                for _ in range(4):
                    if e:
                        c = rng.randrange(len(e))
                        cases.append(Case(k, f"D {mi} 0 x{e[:c].hex()}", "ERR"))
            for _ in range(ck.budget(30, 300)):
                d = mutate(rng, p, mi, g, [b"\1\0\0\0\2\0\0\0\3"])
                if len(d) < 4000:
                    cases.append(Case(k, f"D {mi} 0 x{d.hex()}", H.alarms_only_want))
        lg = model.LongGen(rng, p)
        for mi, m in enumerate(p.msgs):
            for v in (lg.message(mi, 40000) for _ in range(ck.budget(4, 16))):
                if v is not None:
                    e = ref.encode(p, m, v)
                    cases += [H.case_E(p, k, mi, v), H.case_D(p, k, mi, v, op="I"), Case(k, f"D {mi} 0 x{e[:rng.randrange(len(e))].hex()}", "ERR"),
                              Case(k, f"U 0 x{ref.pack(p, [(mi, v), (mi, v)]).hex()}", H.alarms_only_want)]
        for _ in range(ck.budget(60, 300)):
            items = [(mi, g.message(mi)) for mi in (rng.randrange(nm) for _ in range(rng.choice([0, 1, 2, 4, 9])))]
            st, pk = ref.stream(p, items), ref.pack(p, items)
            cases.append(Case(k, f"S -1 0 x{st.hex()}", H.alarms_only_want))
            cases.append(Case(k, f"U 0 x{pk.hex()}", H.alarms_only_want))
            cases.append(Case(k, f"P 0 {len(items)}{H.items_toks(p, items)}", H.alarms_only_want))
            for what, data in (("S -1 0", st), ("U 0", pk)):
                if data:
                    cases.append(Case(k, f"{what} x{data[:rng.randrange(len(data))].hex()}", H.alarms_only_want))
                    b = bytearray(data)
                    for _ in range(rng.choice([1, 2, 4])):
                        b[rng.randrange(len(b))] = rng.choice([0, 1, 0xFF, 0x80, rng.randrange(256)])
                    cases.append(Case(k, f"{what} x{bytes(b).hex()}", H.alarms_only_want))
        for _ in range(ck.budget(120, 900)):
            c, w = life(rng, p, g, rng.choice([5, 15, 40]))
            if len(c) < 200000:
                cases.append(Case(k, c, w))
    ck.run(bs, cases)
    return ck.finish(1000, ["c OK", "c ERR", "c:msan OK", "c:msan ERR", "c:cpp OK"])
