"""C29: encoding and decoding take time in proportion to the amount of data."""
import random
from mon import harness as H, model, ref
from mon.harness import Case

LABELS = ["c:time", "csharp:release", "go", "rust:release", "typescript", "assemblyscript", "zig:fast"]
GROW = 16               # how many times as much data the second measurement gets
SLACK = 6               # and how many times that the time may grow, before the case is measured anew; alone, a third more
FLOOR = 5e6             # nanoseconds: shorter than this is never too long
PHASES = {"D": ["reading", "measuring", "writing", "releasing"], "S": ["processing", "measuring a list", "packing", "releasing a list", "unpacking"]}


def sized(rng, p, mi, n):
    """two values of one shape, the long list or string in it n and GROW times n long"""
    g = model.LongGen(rng, p)
    g.struct(p.msgs[mi])
    if not g.seen:
        return None
    at, seed, out = rng.randrange(g.seen), rng.random(), []
    for k in (n, GROW * n):
        g = model.LongGen(random.Random(seed), p)
        g.at, g.n = at, k
        out.append(g.struct(p.msgs[mi]))
    return [ref.encode(p, p.msgs[mi], v) for v in out]


def main():
    ck = H.Check("C29", rule="a case is one shape of message (one list or string in it long) or list of messages in one language, read, measured, written, packed, unpacked and released with some "
                 "amount of data and with 16 times as much, the time of each step compared; distinct by language, protocol and data")
    rng = ck.rng
    ps = [model.core_proto("Core0"), model.core_proto("Core1", "int32", "uint64")]
    for i in range(ck.budget(3, 8)):
        ps.append(model.gen_proto(rng, f"Gen{i}", *rng.choice([("uint32", "uint32"), ("int64", "int32"), (None, None)])))
    bs = ck.build(ps, LABELS)
    for b in bs.values():
        b.crash_limit = 1           # whatever hangs, hangs again and again
        for u in b.units:
            u.cpu = min(u.cpu, 40)
    pairs = []
    for k, p in enumerate(ps):
        for mi in range(len(p.msgs)):
            for _ in range(ck.budget(3, 16)):
                n = rng.choice([3000, 6000])
                for _ in range(4):
                    e = sized(rng, p, mi, n)
                    if e is None or len(e[1]) < 2500000:
                        break
                    n //= 3
                if e is not None and len(e[1]) > 6 * len(e[0]) and len(e[1]) < 2500000:
                    pairs.append((k, [f"X D {mi} x{x.hex()}" for x in e], "D"))
        g = model.ValueGen(rng, p, max_list=2)
        for _ in range(ck.budget(3, 12)):
            n = rng.choice([1000, 3000])
            mis = [rng.randrange(len(p.msgs)) for _ in range(rng.choice([1, 2, 8]))]
            some = [(mi, g.message(mi)) for mi in mis for _ in range(8)]
            some = [x for x in some if len(ref.encode(p, p.msgs[x[0]], x[1])) < 100] or some[:1]
            one = ref.stream(p, some)
            n = max(1, min(n, 150000 // (len(one) or 1)))
            pairs.append((k, [f"X S x{(one * (n * z)).hex()}" for z in (1, GROW)], "S"))
    cases = [Case(k, t, None, key=("pair", i, j)) for i, (k, ts, _) in enumerate(pairs) for j, t in enumerate(ts)]
    got = {}

    def judge(label, c, r):
        m = H.ALARM.search(r)
        if m:
            return f"alarm {m.group(0)}"
        if not r.startswith("OK "):
            return "reported an error on valid data"
        got[(label, c.key[1], c.key[2])] = [int(x) for x in r.split()[1:]]
        return None
    ck.run(bs, cases, judge)

    def slow(small, large, kind, slack=SLACK):
        return {PHASES[kind][ph]: (a, b) for ph, (a, b) in enumerate(zip(small, large)) if b > FLOOR and b > slack * GROW * max(a, 1000)}
    suspects = []
    for (label, i, j), t in sorted(got.items()):
        if j == 1 and (label, i, 0) in got:
            ck.count(f"steps compared, {label}", len(t))
            for a, b in zip(got[(label, i, 0)], t):
                n = f"largest growth for 16 times the data, {label}"
                if b > FLOOR:
                    ck.counters[n] = max(ck.counters.get(n, 0), b // max(a, 1000))
            s = slow(got[(label, i, 0)], t, pairs[i][2])
            if s:
                suspects.append((label, i, s))
    # what looked slow with everything else going on is measured again, alone
    ck.count("pairs measured again, alone", len(suspects))
    told = {}
    rng.shuffle(suspects)
    for label, i, s in suspects[:24]:
        if told.get(label, 0) >= 2 or (ck.violations and ck.left(240, 900) < 0) or ck.left(480, 1800) < 0:
            continue
        for _ in range(3):
            k, ts, kind = pairs[i]
            rs = [bs[label].ask([(k, t)])[0] for t in ts]
            if not all(r and r.startswith("OK ") for r in rs):
                s = {}
                break
            again = slow(*[[int(x) for x in r.split()[1:]] for r in rs], kind, SLACK * 4 / 3)
            s = {ph: again[ph] for ph in s if ph in again}
            if not s:
                break
        for ph, (a, b) in s.items():
            k, ts, kind = pairs[i]
            size = [len(t) // 2 for t in ts]
            told[label] = told.get(label, 0) + 1
            ck.violation(f"{label}: {ph} {size[1]} bytes takes {b // max(a, 1)} times as long as {ph} {size[0]} bytes ({b / 1e6:.1f} ms and {a / 1e6:.1f} ms)", lang=label.partition(":")[0], label=label,
                         command=ts[0], slow=ts[1], got=str((a, b)), protocol=H.proto_json(ps[k]), mechanism=ph)
    return ck.finish(100, [f"{l} OK" for l in LABELS])

