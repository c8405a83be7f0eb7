"""C23: a message's type is its place in the protocol, whichever way one asks."""
from mon import harness as H, model, ref
from mon.harness import Case


def main():
    ck = H.Check("C23", rule="a case is one message value in one language: the constant of its type, the type reported by a fresh, a filled, a read, a streamed, an unpacked and a generically read "
                 "instance, and its tag, against its place in the protocol file, and the bytes each of these instances writes against the original's; distinct by language, protocol and value")
    rng = ck.rng
    ps = H.suite(ck, ck.budget(5, 16), core=ck.budget(1, 4), markers="any", big=True)
    M, S = model.Member, model.Struct
    kinds = [[], [M("x", "int16")], [M("names", "string", True)], [M("x", "int16")], [M("flags", "bool", True), M("hp", "uint64")]]
    # messages that only their tag tells apart, up to the last one there can be
    ps.append(model.Proto("Alike", [], [], [S(f"Same{chr(65 + i // 26)}{chr(65 + i % 26)}", [M("x", "int16")]) for i in range(rng.choice([2, 17, 130]))]))
    ps.append(model.Proto("Many", [], [], [S(f"Msg{i}", kinds[i % 5]) for i in range(255)]))
    ps.append(model.Proto("Lone", [], [], [S("Only", [M("x", "byte")])]))
    names = ["Zulu", "Alpha", "Mike", "Type", "MessageTypes", "Unknown", "Bravo2", "Zulu2"]
    rng.shuffle(names)
    ps.append(model.Proto("Order", [], [], [S(n, [M("x", "int16")]) for n in names]))
    bs = ck.build(ps)
    cases = []
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=3)
        for mi, m in enumerate(p.msgs):
            for _ in range(ck.budget(1, 3) if len(p.msgs) > 20 else ck.budget(10, 60)):
                v = g.message(mi)
                if len(ref.encode(p, m, v)) < 20000:
                    t = mi + 1
                    cases.append(Case(k, f"T {mi}{H.toks(p, mi, v)}", f"OK {t} {t} {t} {t} {t} {t} {t} x{t:02x}"))
    rng.shuffle(cases)
    ck.run(bs, cases)
    return ck.finish(1000, [f"{l} OK" for l in H.LANGS])
