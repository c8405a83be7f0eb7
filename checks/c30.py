"""C30: the generated interface is the documented one."""
import traceback
from mon import harness as H, common, engine, iface, model
from checks.c05 import enum_proto


def judge(ck, lang, rename, k, p, got, extra):
    def say(what, want, have):
        ck.violation(f"{lang}: {what}", lang=lang, mechanism="interface", protocol_text=p.toml(), options=list(extra), want=want, got=str(have)[:1500])
    if (k, "SKIP", "") in got:
        ck.count("left out " + lang)
        return
    if lang in ("go",) or "--typescript-use-namespace" in extra:
        if p.ns is not None:
            have = [n for n, _ in got.get((k, "P", "package"), [])]
            ck.observe((lang, "package", p.toml(), tuple(extra)), trivial=True)
            if [n.replace("_", "").lower() for n in have] != [p.ns.replace("_", "").lower()]:
                say("package or namespace is not the protocol's", p.ns, have)
    for s in iface.types(p):
        want = iface.expected(lang, p, s, rename)
        have = got.get((k, "T", s.name), [])
        if lang == "go":
            # what other packages cannot see does not count
            have = [(n, t) for n, t in have if n[:1].isupper() or n in dict(want)]
        a, b = (sorted(want), sorted(have)) if lang == "rust" else (want, have)
        ck.count(f"{lang} type")
        ck.count(f"{lang} member", len(have))
        ck.observe((lang, s.name, p.toml(), tuple(extra)), {"lang": lang, "type": s.name, "observed": have[:12], "options": list(extra)}, trivial=not s.members)
        if lang == "c":
            # the documentation calls it a byte, the code has an enum: its place is what counts
            b = [(n, a[0][1] if n == "_mt" and "order" not in t and a else t) for n, t in b]
        if lang == "swift":
            b = [(n, w[1] if "?" in t and w[0] == n else t) for (n, t), w in zip(b, a + [("", "")] * len(b))]
        if a != b:
            bad = [(w, h) for w, h in zip(want, have) if w != h][:1] or [(want[len(have):][:1], have[len(want):][:1])]
            say(f"{s.name}: members are not the declared ones: expected {bad[0][0]}, the code has {bad[0][1]}", want, have)
    for e in p.enums.values():
        want = [(n, str(v)) for n, v in iface.expected_enum(lang, p, e)]
        have = got.get((k, "E", e.name), [])
        if lang == "assemblyscript":
            have = [(n, v) for n, v in have if n != "_Unknown"]
        if lang == "swift":
            have = [(n, w[1] if "?" in v and w[0] == n else v) for (n, v), w in zip(have, want + [("", "")] * len(have))]
        ck.count(f"{lang} enum")
        ck.observe((lang, e.name, p.toml(), tuple(extra)), {"lang": lang, "enum": e.name, "observed": have[:12]})
        # the zig compiler wants them as they are, any other order of constants means the same
        if sorted(have) != sorted(want):
            want2 = [(n, v if n else v.lower()) for n, v in want]
            say(f"{e.name}: constants are not the declared ones", want2, have)


NAMES = ["lane2ID", "hp2X", "HTTPServer", "getURL", "aB", "ABc", "x1y2Z3", "alreadySnake_case", "kept_as_is", "Q", "isOK", "id3", "UPPER_CASE", "mixedUPCase9End", "v2Beta", "trailing9A", "a1B2C3", "camelCase", "Pascal2Case", "xY"]


def naming_proto(rng):
    """names of every shape: digits, runs of capitals, underscores; no two of them alike in any language"""
    M = model.Member
    used = [n for n in NAMES]
    for _ in range(30):
        n = "".join(rng.choice(["aq", "Zu", "HX", "7", "b3", "Q", "w_", "IDs", "9K"]) for _ in range(rng.randint(2, 5))).strip("_")
        if n[0].isdigit() or "__" in n:
            continue
        used.append(n)
    low, ms = {"unused"}, []
    for n in used:
        key = iface.lang_rust.snake(n).replace("_", "")
        if key not in low:
            low.add(key)
            ms.append(M(n, rng.choice(model.SIZE_TYPES + ["string", "bool", "double"]), rng.random() < 0.3))
    rng.shuffle(ms)
    return model.Proto("NamesOf2D", [], [model.Struct("Pair2D", ms[:len(ms) // 2])], [model.Struct("HTTPMsg", ms[len(ms) // 2:] + [M("pair2D", "Pair2D")])])


def main():
    ck = H.Check("C30", rule="a case is one struct, message or enum of one protocol in one language, as the compiler or the running program sees it: its members' names, order and types, or its "
                 "constants' names and values and its underlying type, against the protocol and the documented table of types; distinct by language, protocol, type and options; memberless types are trivial")
    rng = ck.rng
    n = 0
    first = True
    while first or (ck.thorough and ck.left(0, 420) > 0 and n < 12):
        first = False
        ps = [model.core_proto("Core"), naming_proto(rng)] + [enum_proto(rng, "EnumsA"), enum_proto(rng, "EnumsB", *H.size_pair(rng))] + H.suite(ck, 8, core=1, big=True, markers="any")
        for i, t in enumerate(model.SIZE_TYPES):
            ps.append(model.gen_proto(rng, f"Sized{i}", t, model.SIZE_TYPES[-1 - i], out_of_order=True))
        seen = set()
        for i, p in enumerate(ps):
            if p.ns in seen:
                p.ns = f"{p.ns}x{i}"
            seen.add(p.ns)
        jobs = [(l, (), True) for l in iface.LANGS] + [("go", ("--go-no-rename",), False), ("rust", ("--rust-no-rename",), False), ("typescript", ("--typescript-use-namespace",), True)]

        def one(j):
            lang, extra, rename = j
            try:
                return iface.observe(lang, ps, common.subdir(f"c30_{n}_{lang}_{len(extra)}"), extra, rename)
            except engine.BuildError as e:
                return e
            except engine.Unavailable as e:
                return e
        for (lang, extra, rename), got in zip(jobs, common.pmap(one, jobs)):
            if isinstance(got, engine.BuildError):
                ck.violation(f"{lang}: generated code cannot be used by its documented names ({got.where})", lang=lang, mechanism="build", options=list(extra), got=str(got)[:3000], protocols=[H.proto_json(p) for p in ps])
                continue
            if isinstance(got, engine.Unavailable):
                ck.inconclusive.append(str(got)[:300])
                continue
            for k, p in enumerate(ps):
                judge(ck, lang, rename, k, p, got, extra)
        n += 1
    return ck.finish(500, [f"{l} member" for l in iface.LANGS])
