"""C05: only declared enum values are decoded, in every position."""
import struct as S
from mon import harness as H, model, ref
from mon.harness import Case
from mon.model import Enum, Struct, Member, Proto


def enum_proto(rng, ns, lst=None, sst=None):
    """many enum shapes, each as a member, list element, in structs, in lists of structs, and two levels down"""
    styles = ["dense", "sparse", "negative", "unordered", "edge16", "edge32", "single", "zero_later"]
    rng.shuffle(styles)
    enums = [model.gen_enum(rng, n, s) for n, s in zip(model.ENUM_NAMES + ["Grade", "Shape"], styles)]
    M = Member
    structs, msgs = [], []
    for i, e in enumerate(enums):
        structs.append(Struct(f"Flat{e.name}", [M("hp", "int16"), M("role", e.name), M("mana", "byte")]))
        structs.append(Struct(f"Deep{e.name}", [M("pos", f"Flat{e.name}"), M("kind", e.name)]))
        structs.append(Struct(f"Rich{e.name}", [M("names", "string"), M("inner", f"Deep{e.name}"), M("tags", e.name, True), M("rows", f"Flat{e.name}", True)]))
        msgs.append(Struct(f"Plain{e.name}", [M("role", e.name), M("score", "int32")]))
        msgs.append(Struct(f"Full{e.name}", [M("first", e.name), M("tags", e.name, True), M("flat", f"Flat{e.name}"), M("deep", f"Deep{e.name}"), M("rich", f"Rich{e.name}"),
                                            M("kids", f"Rich{e.name}", True), M("grid", f"Deep{e.name}", True), M("last", e.name)]))
        msgs.append(Struct(f"Simple{e.name}", [M("deep", f"Deep{e.name}"), M("status", e.name)]))
    return Proto(ns, enums, structs, msgs, lst, sst)


def main():
    ck = H.Check("C05", rule="a case is one encoding in which the stored number of one enum, at one position, is replaced by another number of its storage type: a declared "
                 "value must be decoded to that value, any other must be rejected (in AssemblyScript: decoded as unknown); distinct by language, protocol, position and number")
    rng = ck.rng
    ps = [enum_proto(rng, "EnumsA"), enum_proto(rng, "EnumsB", *H.size_pair(rng))] + [enum_proto(rng, f"EnumsX{i}", *H.size_pair(rng)) for i in range(ck.budget(0, 4))]
    ps += H.suite(ck, ck.budget(2, 8))
    bs = ck.build(ps)
    cases = []
    for k, p in enumerate(ps):
        g = model.ValueGen(rng, p, max_list=3, list_len=lambda r, d: r.choice([1, 2, 3]) if d < 2 else 1)
        for mi, m in enumerate(p.msgs):
            for i in range(ck.budget(2, 8)):
                v = g.message(mi)
                spans = []
                e = ref.encode(p, m, v, spans)
                es = [s for s in spans if s[2] == "enum"]
                if len(es) > 24:
                    es = rng.sample(es, 24)
                for a, b, _, path, t in es:
                    en = p.enums[t]
                    lo, hi = model.RANGE[en.enc]
                    dec = sorted(en.declared())
                    cand = {lo, hi, 0, 1, -1, 255, 256, 32767, -32768, dec[0] - 1, dec[-1] + 1} | {d + o for d in dec for o in (-1, 1, 256, -256, 65536)} | set(range(len(dec) + 2))
                    cand |= {rng.randint(lo, hi) for _ in range(2)} | {rng.randint(dec[0], dec[-1]) for _ in range(4)}
                    cand = [c for c in sorted(cand) if lo <= c <= hi]
                    bad = [c for c in cand if c not in en.declared()]
                    bad = rng.sample(bad, min(len(bad), ck.budget(7, 20)))
                    for x in bad:
                        data = e[:a] + ref.enc_base(en.enc, x) + e[b:]
                        cases.append(Case(k, f"D {mi} 0 x{data.hex()}", unknown(p, mi, v, spans, (a, b), len(data)), key=(mi, path, x, i)))
                    for x in (dec if i == 0 else rng.sample(dec, min(2, len(dec)))):
                        data = e[:a] + ref.enc_base(en.enc, x) + e[b:]
                        val, pos, _ = ref.decode(p, m, data)
                        cases.append(Case(k, f"D {mi} 0 x{data.hex()}", f"OK {pos}{H.toks(p, mi, val)}", key=(mi, path, x, i)))
    if len(cases) > ck.budget(9000, 60000):
        cases = rng.sample(cases, ck.budget(9000, 60000))
    ck.run(bs, cases)
    return ck.finish(1000, [f"{l} OK" for l in H.LANGS] + [f"{l} ERR" for l in H.LANGS if l != "assemblyscript"])


def unknown(p, mi, v, spans, where, n):
    # the token that stands for the replaced number
    st = p.msgs[mi]
    idx = token_index(p, st, v, where)
    want = ref.tokens(p, st, v)

    def judge(label, r):
        if H.ALARM.search(r):
            return f"alarm {H.ALARM.search(r).group(0)}"
        if not label.startswith("assemblyscript"):
            return None if r.startswith("ERR") else "an undeclared enum value was accepted"
        f = r.split(" ")
        if f[0] != "OK" or int(f[1]) != n:
            return "expected the message with the unknown value"
        got = f[2:]
        if len(got) != len(want):
            return "answered something else than the reference"
        for i, (a, b) in enumerate(zip(got, want)):
            if i == idx:
                if not a.startswith("?"):
                    return "an undeclared enum value was accepted"
            elif a != b:
                return "answered something else than the reference"
        return None
    return judge


def token_index(p, st, v, where):
    """index of the token whose leaf is encoded at `where`: leaves and tokens come in the same order, except that a string is two leaves and one token"""
    spans = []
    ref.encode(p, st, v, spans)
    i = 0
    for a, b, kind, _, _ in spans:
        if (a, b) == where and kind == "enum":
            return i
        if kind != "strbytes":
            i += 1
    raise AssertionError("no such leaf")
