"""C19: buffers that are too small."""
from mon import harness as H, model, ref
from mon.harness import Case


def main():
    ck = H.Check("C19", rule="a case is one message or list of messages written or packed by one language into buffers of every capacity from zero to the reported size (all of them up "
                 "to 300 bytes, both ends and a sample beyond), each in guarded memory; in Zig one capacity per case; distinct by language, protocol and value")
    rng = ck.rng
    ps = H.suite(ck, ck.budget(5, 16), core=ck.budget(2, 5))
    bs = ck.build(ps, ["c", "typescript", "assemblyscript", "zig"])
    if "zig" in bs:
        bs["zig"].crash_limit = 100000
    cases = []
    caps = [0]

    def want_all(size):
        def judge(label, r):
            m = H.ALARM.search(r)
            if m:
                return r[:200] if r.startswith("BAD") else f"alarm {m.group(0)}"
            f = r.split(" ")
            if f[0] != "OK":
                return "did not finish"
            if int(f[1]) != size:
                return f"reported size {f[1]}, the encoding has {size}"
            caps[0] += int(f[2])
            return None
        return judge

    def want_zig(enough):
        def judge(label, r):
            caps[0] += 1
            if enough:
                return None if r.startswith("OK") and not H.ALARM.search(r) else "a buffer of the reported size did not suffice"
            if r.startswith("CRASH rc=-6") or (r.startswith("CRASH") and ("out of bounds" in r or "panic" in r)):
                return None             # stopped by the language's bounds check, the documented Zig way
            if r.startswith("ERR"):
                return None
            return "writing into a buffer that is too small was not stopped"
        return judge
    zig = 0
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=2)
        for mi, m in enumerate(p.msgs):
            for it in range(ck.budget(12, 60) if m.members else 1):
                v = g.message(mi)
                e = ref.encode(p, m, v)
                if len(e) > 4000:
                    continue
                for tag in (0, 1):
                    n = len(e) + tag
                    cases.append(Case(k, f"W {tag} {mi}{H.toks(p, mi, v)}", want_all(n), langs=["c", "typescript", "assemblyscript"], trivial=n == 0))
                    cases.append(Case(k, f"W {n} {tag} {mi}{H.toks(p, mi, v)}", want_zig(True), langs=["zig"], trivial=n == 0))
                if it == 0 and e:
                    for c in {0, len(e) - 1, rng.randrange(len(e)), rng.randrange(len(e))}:
                        cases.append(Case(k, f"W {c} 0 {mi}{H.toks(p, mi, v)}", want_zig(False), langs=["zig"]))
                        zig += 1
        for _ in range(ck.budget(8, 40)):
            items = [(mi, g.message(mi)) for mi in (rng.randrange(len(p.msgs)) for _ in range(rng.choice([0, 1, 2, 4])))]
            n = len(ref.pack(p, items))
            if n > 4000:
                continue
            cases.append(Case(k, f"K {len(items)}{H.items_toks(p, items)}", want_all(n), langs=["c", "typescript", "assemblyscript"]))
            cases.append(Case(k, f"K {n} {len(items)}{H.items_toks(p, items)}", want_zig(True), langs=["zig"]))
        n = 9
        for c in (0, 3, 8):
            cases.append(Case(k, f"K {c} 0", want_zig(False), langs=["zig"]))
    ck.run(bs, cases)
    ck.counters["capacities tried"] = caps[0]
    return ck.finish(200, ["c OK", "typescript OK", "assemblyscript OK", "zig OK", "zig CRASH", "capacities tried"])
