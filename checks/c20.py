"""C20: every list and string size type, up to its full capacity."""
import itertools
from mon import harness as H, model, ref
from mon.harness import Case
from mon.model import Proto, Struct, Member as M, Enum


def proto(ns, lst, sst):
    inner = Struct("Inner", [M("names", "string"), M("rows", "int16", True)])
    flat = Struct("Flat", [M("x", "byte"), M("role", "Role")])
    return Proto(ns, [Enum("Role", [("Able", 300), ("Baker", -1)])], [inner, flat], [
        Struct("Text", [M("text", "string"), M("last", "byte")]), Struct("Bytes", [M("data", "byte", True), M("last", "byte")]),
        Struct("Words", [M("names", "string", True), M("last", "byte")]), Struct("Structs", [M("items", "Inner", True), M("flat", "Flat", True), M("last", "byte")]),
        Struct("Wide", [M("nums", "uint64", True), M("flags", "bool", True), M("roles", "Role", True), M("last", "byte")])], lst, sst)


def main():
    ck = H.Check("C20", rule="a case is one message holding a list or string of a chosen length (around 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, as far as the size type goes) "
                 "written, sized or read by one language, for one pair of size types; distinct by language, size types, message and length")
    rng = ck.rng
    T = model.SIZE_TYPES
    pairs = list(itertools.product(T, T))
    if not ck.thorough:
        # every type in both roles at least once, plus random pairs
        perm = T[:]
        rng.shuffle(perm)
        pairs = list(dict.fromkeys(list(zip(T, perm)) + rng.sample(pairs, 5)))
    ps = [proto(f"Size{i}", a, b) for i, (a, b) in enumerate(pairs)]
    groups = [list(range(i, min(i + 13, len(ps)))) for i in range(0, len(ps), 13)]
    LEN = [0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 1000]
    BIG = [32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537]
    for gi, grp in enumerate(groups):
        sub = [ps[i] for i in grp]
        bs = ck.build(sub, tag=f"g{gi}")
        cases = []

        def both(k, p, mi, v, key, langs=None):
            cases.append(H.case_E(p, k, mi, v, key=("E",) + key, langs=langs))
            cases.append(H.case_D(p, k, mi, v, key=("D",) + key, post=b"\x01\x02", langs=langs))
        for k, p in enumerate(sub):
            lm, sm = model.maxlen(p.lst), model.maxlen(p.sst)
            big_l = [n for n in BIG if n <= lm]
            big_s = [n for n in BIG if n <= sm]
            if not ck.thorough:
                big_l = [n for n in big_l if n in (lm, lm - 1)] + rng.sample(big_l, min(2, len(big_l)))
                big_s = [n for n in big_s if n in (sm, sm - 1)] + rng.sample(big_s, min(2, len(big_s)))
            for n in sorted(set([n for n in LEN if n <= sm] + big_s)):
                b = bytes(0x20 + (i * 7 + n) % 95 for i in range(n))
                both(k, p, 0, [b, 77], ("text", n))
                if n >= 4 and n % 2 == 0 and n < 3000:
                    both(k, p, 0, ["é".encode() * (n // 2), 77], ("text2", n))
            for n in sorted(set([n for n in LEN if n <= lm] + big_l)):
                both(k, p, 1, [[(i * 31 + n) & 255 for i in range(n)], 77], ("bytes", n))
            for n in [n for n in LEN[:11] if n <= lm]:
                s = [bytes([97 + i % 26]) * min(i % 5, sm) for i in range(n)]
                both(k, p, 2, [s, 77], ("words", n))
                both(k, p, 3, [[[s[i], [i - 100] * (i % 3)] for i in range(n)], [[i & 255, [300, -1][i % 2]] for i in range(n)], 77], ("structs", n))
                both(k, p, 4, [[2**64 - 1 - i for i in range(n)], [i % 2 for i in range(n)], [[300, -1][i % 2] for i in range(n)], 77], ("wide", n))
            for n in [n for n in (1000, 3000, rng.choice([33000, 66000])) if n <= lm] if ck.thorough or rng.random() < 0.4 else []:
                s = [bytes([97 + i % 26]) * (i % 3) for i in range(n)]
                few = None if n < 10000 or rng.random() < 0.1 else [x for x in H.LANGS if x != "swift"]     # interpreted: seconds for each of these
                both(k, p, 2, [s, 77], ("many words", n), few)
                both(k, p, 3, [[[s[i], [i % 300 - 100] * (i % 2)] for i in range(n)], [[i & 255, [300, -1][i % 2]] for i in range(n)], 77], ("many structs", n), few)
                both(k, p, 4, [[2**64 - 1 - i for i in range(n)], [i % 2 for i in range(n)], [[300, -1][i % 2] for i in range(n)], 77], ("many wide", n), few)
            for n in [x for x in (127, 128, 255, 300) if x <= sm]:
                m = min(3, lm)
                both(k, p, 2, [[b"z" * n] * m, 77], ("words of", n))
                both(k, p, 3, [[[b"q" * n, [1, 2]]] * m, [], 77], ("structs with", n))
            # lengths beyond what is there, at the edge of the type: reported, not crashed on
            if ck.thorough or rng.random() < 0.6:
                for mi, t in ((0, p.sst), (1, p.lst), (2, p.lst), (3, p.lst), (4, p.lst)):
                    for n in (model.maxlen(t), model.maxlen(t) - 1, model.maxlen(t) // 2 + 1):
                        cases.append(Case(k, f"D {mi} 0 x{(ref.enc_base(t, n) + bytes(40)).hex()}", "ERR", key=("beyond", mi, n)))
        ck.run(bs, cases)
    ck.counters["size type pairs"] = len(ps)
    return ck.finish(500, [f"{l} OK" for l in H.LANGS])
