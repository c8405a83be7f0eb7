"""C24: protocols of different namespaces live in one program."""
from mon import harness as H, model, ref
from mon.harness import Case
from checks.c07 import want_unpack

M, S, E, P = model.Member, model.Struct, model.Enum, model.Proto


def rivals(rng):
    """protocols that use the same names for different things"""
    T = ["byte", "bool", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double", "string", "Role", "Item", "Color"]

    def one(ns, lst, sst, vals):
        item = [M(n, rng.choice(T[:12]), rng.random() < 0.4) for n in ("alpha", "beta", "names")]
        color = [M(n, rng.choice(T[:10])) for n in ("x", "y")]
        msgs = [S(n, [M(mn, rng.choice(T), rng.random() < 0.4) for mn in rng.sample(["alpha", "beta", "items", "names", "pos", "x"], rng.randint(1, 4))]) for n in rng.sample(["Join", "Leave", "Update", "Chat"], 4)]
        names = rng.sample(["Able", "Baker", "Charlie"], 3)
        return P(ns, [E("Role", list(zip(names, vals)))], [S("Item", item), S("Color", color)], msgs[:rng.randint(2, 4)] + [S("Item2", [M("items", "Item", True)])], lst, sst)
    nss = rng.choice([["App", "AppNet", "Game"], ["Net", "NetApp", "net2"], ["AAA", "AA", "A"], ["Msgs", "beschi2", "Proto_X"]])
    sizes = [(None, None)] + [H.size_pair(rng) for _ in nss]
    vals = [[0, 1, 2], [256, -1, 7], [70000, 0, -70000], [5, 200, 3]]
    ps = [one(ns, *sizes[i], vals[i]) for i, ns in enumerate([None] + nss)]
    return ps


def main():
    ck = H.Check("C24", rule="a case is one message written, read, streamed, packed or made by one of several protocols that use the same type and member names for different things and are linked into one "
                 "program (C: every source file includes every header, each implements one; also all implementations in one file), commands to the protocols interleaved; distinct by language, "
                 "protocol and command")
    rng = ck.rng
    for rnd in range(ck.budget(3, 12)):
        ps = rivals(rng)
        if ck.thorough or rnd == 0:
            ps.append(model.core_proto("CoreX"))
        langs = ["c:multi"] if rnd % 3 == 1 else ["c:multi"] + [l for l in H.LANGS if l != "c"]
        if rnd == 0:
            langs.append("c:multi-plain")
        bs = ck.build(ps, langs, tag=f"r{rnd}")
        cases = []
        for k, p in enumerate(ps):
            g = model.ValueGen(rng, p, max_list=3)
            nm = len(p.msgs)
            for mi, m in enumerate(p.msgs):
                d = model.default_value(p, m)
                e = ref.encode(p, m, d)
                t = H.toks(p, mi, d)
                cases.append(Case(k, f"F {mi}", f"OK {len(e)} x{e.hex()} x{e.hex()} {mi}{t} /{t}", key=("F", rnd, mi)))
                for _ in range(ck.budget(8, 30)):
                    v = g.message(mi)
                    cases.append(H.case_E(p, k, mi, v))
                    cases.append(H.case_D(p, k, mi, v, pre=rng.choice([b"", b"\1\2\3"])))
            for _ in range(ck.budget(12, 60)):
                items = [(mi, g.message(mi)) for mi in (rng.randrange(nm) for _ in range(rng.choice([0, 1, 2, 5])))]
                st, pk = ref.stream(p, items), ref.pack(p, items)
                cases.append(Case(k, f"S -1 0 x{st.hex()}", H.list_reply(p, items, len(st))))
                cases.append(Case(k, f"U 0 x{pk.hex()}", want_unpack(p, pk)))
                cases.append(Case(k, f"P 0 {len(items)}{H.items_toks(p, items)}", f"OK {len(pk)} {len(pk)} x{pk.hex()}"))
        rng.shuffle(cases)
        ck.run(bs, cases)
    return ck.finish(1000, [f"{l} OK" for l in ["c:multi"] + H.LANGS[1:]])
