"""C27: reading and writing do not depend on what kind of source or sink carries the bytes."""
from mon import harness as H, model, ref
from mon.harness import Case

SOURCES = {"go": ["chunk", "eof", "zero", "bufio", "strings", "section", "multi", "pipe", "file"],
           "csharp": ["chunk", "nonseek", "buffered", "segment", "file"],
           "c:pages": ["end", "start"], "zig": ["end", "start"], "zig:fast": ["end", "start"], "rust": ["vec", "part", "box"], "typescript": ["arraybuffer", "pool", "resizable", "typed"]}
SINKS = {"go": ["plain", "bufio", "builder", "multi", "pipe", "file"], "csharp": ["plain", "buffered", "file"], "c:pages": ["end", "start"], "zig": ["end", "start"],
         "zig:fast": ["end", "start"], "rust": ["empty", "exact", "after", "tight"], "typescript": ["arraybuffer", "pool", "resizable", "typed"]}
FAIL = {"go": ["fail", "failnow"], "csharp": ["fail"]}


def edge(kind, at, need, ok):
    """what to expect of a source that fails after `at` bytes when `need` are needed"""
    if at == need and kind == "failnow":       # the last byte comes together with the failure
        return H.alarms_only_want
    return ok if at >= need else "ERR"


def foreign(rng, p, mi, v):
    """the same message from a writer that stores true as other numbers than one"""
    spans = []
    b = bytearray(ref.encode(p, p.msgs[mi], v, spans))
    for a, _, kind, _, _ in spans:
        if kind == "bool" and b[a]:
            b[a] = rng.choice([1, 2, 127, 128, 255])
    return bytes(b)


def main():
    ck = H.Check("C27", rule="a case is one message, stream or packed list read from (or written to) one kind of source (or sink) in one language, whole, cut, or from a source that fails at one position; "
                 "distinct by language, kind, protocol and bytes")
    rng = ck.rng
    ps = H.suite(ck, ck.budget(3, 10), core=2)
    bs = ck.build(ps, list(SOURCES))
    cases = []
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=3)
        nm = len(p.msgs)
        lg = model.LongGen(rng, p)

        def read(only, kind, arg, what, a, data, want):
            cases.append(Case(k, f"R {kind} {arg} {what} {a} x{data.hex()}", want, langs=[only]))
        for it in range(ck.budget(60, 150)):
            mi = rng.randrange(nm)
            v = g.message(mi)
            if it % 8 == 7:
                v = lg.message(mi, 3000) or v
            one = foreign(rng, p, mi, v)
            tail = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 4])))
            items = [(m, g.message(m)) for m in (rng.randrange(nm) for _ in range(rng.choice([0, 1, 2, 4])))]
            bodies = [foreign(rng, p, m, w) for m, w in items]
            st = b"".join(bytes([m + 1]) + e for (m, _), e in zip(items, bodies))
            pk = ref.pack(p, items)[:8] + st + b"\0"
            ended = st + b"\0" + tail
            okD = f"OK {len(one)}{H.toks(p, mi, v)}"
            for lang, kinds in SOURCES.items():
                for kind in rng.sample(kinds, min(len(kinds), ck.budget(3, 6))):
                    x = rng.randrange(1000)
                    read(lang, kind, x, "D", mi, one + tail, okD)
                    if one:
                        read(lang, kind, x, "D", mi, one[:rng.randrange(len(one))], "ERR")
                    if kind == "nonseek":          # streams of messages need to know where they end
                        continue
                    read(lang, kind, x, "S", -1, st, H.list_reply(p, items, len(st)))
                    read(lang, kind, x, "S", -1, ended, H.list_reply(p, items, len(st) + 1))
                    n = rng.randint(0, len(items))
                    read(lang, kind, x, "S", n, ended, H.list_reply(p, items[:n], len(ref.stream(p, items[:n]))))
                    read(lang, kind, x, "U", 0, pk + tail, H.list_reply(p, items, len(pk) - 1))
                    if items:
                        cut = st[:len(st) - rng.randint(1, len(bodies[-1]))] if len(bodies[-1]) else None
                        if cut is not None:
                            read(lang, kind, x, "S", -1, cut, "ERR")
                            read(lang, kind, x, "U", 0, pk[:8 + len(cut)], "ERR")
            for lang, kinds in FAIL.items():
                for kind in kinds:
                    for at in rng.sample(range(len(one) + 1), min(len(one) + 1, ck.budget(4, 12))) + [len(one)]:
                        read(lang, kind, at, "D", mi, one + tail, edge(kind, at, len(one), okD))
                    need = len(ended) - len(tail)
                    for at in rng.sample(range(need + 1), min(need + 1, ck.budget(3, 12))) + [need]:
                        read(lang, kind, at, "S", -1, ended, edge(kind, at, need, H.list_reply(p, items, need)))
                    if lang == "go" and st:        # a source that fails between two messages has not ended
                        read(lang, kind, len(st), "S", -1, st, "ERR")
                        read(lang, kind, len(ref.stream(p, items[:rng.randrange(len(items))])), "S", -1, st, "ERR")
                    if items:
                        for at in rng.sample(range(len(pk)), min(len(pk), ck.budget(3, 12))):
                            read(lang, kind, at, "U", 0, pk, edge(kind, at, len(pk) - 1, H.list_reply(p, items, len(pk) - 1)))
            out = "OK" + "".join(f" x{(bytes([m + 1]) + e).hex()} x{e.hex()}" for m, e in ((m, ref.encode(p, p.msgs[m], w)) for m, w in items)) + f" x{ref.pack(p, items).hex()}"
            for lang, kinds in SINKS.items():
                for kind in rng.sample(kinds, min(len(kinds), ck.budget(2, 4))):
                    cases.append(Case(k, f"Z {kind} {len(items)}{H.items_toks(p, items)}", out, langs=[lang]))
            for at in rng.sample(range(len(pk) + 2), min(len(pk) + 2, ck.budget(3, 12))):
                parts = out.split(" ")[1:]
                want = "OK" + "".join(" " + (x if (len(x) - 1) // 2 <= at else "ERR") for x in parts)
                cases.append(Case(k, f"Z fail {at} {len(items)}{H.items_toks(p, items)}", want, langs=["csharp"]))
    ck.run(bs, cases)
    return ck.finish(1000, [f"{l} OK" for l in SOURCES] + [f"{l} ERR" for l in SOURCES])
