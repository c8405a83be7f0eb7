"""C22: strings are UTF-8 with byte-accurate lengths."""
import unicodedata
from mon import harness as H, model, ref
from mon.harness import Case
from mon.model import Proto, Struct, Member as M


def proto(ns, lst, sst):
    note = Struct("Note", [M("text", "string"), M("lines", "string", True)])
    book = Struct("Book", [M("title", "string"), M("notes", "Note", True), M("best", "Note")])
    return Proto(ns, [], [note, book], [Struct("Say", [M("text", "string")]), Struct("Many", [M("a", "string"), M("words", "string", True), M("z", "string")]),
                                       Struct("Deep", [M("note", "Note"), M("books", "Book", True), M("n", "int16"), M("tail", "string")])], lst, sst)


def corpus(rng, n):
    edge = [0, 1, 9, 10, 13, 0x1F, 0x20, 0x22, 0x27, 0x5C, 0x7E, 0x7F, 0x80, 0x85, 0xA0, 0xAD, 0xFF, 0x100, 0x17F, 0x300, 0x301, 0x3A9, 0x5D0, 0x627, 0x7FE, 0x7FF, 0x800, 0x801, 0xE01, 0xFFF, 0x1000,
            0x1100, 0x200B, 0x200C, 0x200D, 0x200E, 0x2028, 0x2029, 0x202E, 0x2060, 0x20AC, 0x3042, 0x4E2D, 0xAC00, 0xD7FF, 0xE000, 0xF8FF, 0xFB01, 0xFE0F, 0xFEFF, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF,
            0x10000, 0x10001, 0x103FF, 0x10400, 0x1D11E, 0x1F1E6, 0x1F468, 0x1F600, 0x1F3FB, 0x1FFFF, 0x20000, 0x2FFFF, 0xE0001, 0xE0100, 0xF0000, 0xFFFFF, 0x100000, 0x10FFFD, 0x10FFFE, 0x10FFFF]
    out = [""] + [chr(c) for c in edge] + [chr(c) + "x" for c in edge] + ["x" + chr(c) for c in edge]
    cls = [(0, 0x7F), (0x80, 0x7FF), (0x800, 0xD7FF), (0xE000, 0xFFFF), (0x10000, 0x10FFFF)]
    for _ in range(n):
        k = rng.randrange(4)
        if k == 0:
            a, b = rng.choice(cls)
            s = "".join(chr(rng.randint(a, b)) for _ in range(rng.randint(1, 40)))
        elif k == 1:
            s = "".join(chr(rng.randint(*rng.choice(cls))) for _ in range(rng.randint(1, 60)))
        elif k == 2:
            s = "".join(chr(rng.choice(edge)) for _ in range(rng.randint(1, 20)))
        else:
            s = unicodedata.normalize(rng.choice(["NFC", "NFD", "NFKC", "NFKD"]), rng.choice(["é\u0301 Ångström", "한국어", "ﬁancé", "👩‍👩‍👧‍👦 ṩ", "ﷺ"]) * rng.randint(1, 3))
        out.append(s)
    return out


def main():
    ck = H.Check("C22", rule="a case is one text at one position (a member, a list element, inside structs and lists of structs) written, sized or read by one language; distinct by language, "
                 "position and text; the empty text alone is trivial")
    rng = ck.rng
    ps = [proto("Text0", None, None)] + [proto(f"Text{i}", *H.size_pair(rng)) for i in range(1, ck.budget(4, 8))]
    bs = ck.build(ps)
    cases = []
    for k, p in enumerate(ps):
        cap = model.maxlen(p.sst)
        texts = [t.encode() for t in corpus(rng, ck.budget(250, 2500))]
        texts = [t for t in texts if len(t) <= cap]

        def both(mi, v, tr=False):
            cases.append(H.case_E(p, k, mi, v, trivial=tr))
            cases.append(H.case_D(p, k, mi, v, trivial=tr))
        for t in texts:
            both(0, [t], not t)
        rng.shuffle(texts)
        pick = lambda: rng.choice(texts)
        for _ in range(ck.budget(250, 2500)):
            both(1, [pick(), [pick() for _ in range(rng.choice([0, 1, 2, 7]))], pick()])
            note = lambda: [pick(), [pick() for _ in range(rng.choice([0, 1, 3]))]]
            both(2, [note(), [[pick(), [note() for _ in range(rng.choice([0, 1, 2]))], note()] for _ in range(rng.choice([0, 1, 2]))], rng.randint(-32768, 32767), pick()])
        for n in (1000, 5000):
            for ch in ("a", "é", "日", "🙂"):
                b = ch.encode() * n
                if len(b) <= cap:
                    both(1, [b, [b], b"end"])
        # sequences that are not UTF-8: no crash, no hang
        noalarm = lambda label, r: (f"alarm {H.ALARM.search(r).group(0)}" if H.ALARM.search(r.replace("!UTF16", "")) else None)
        for bad in (b"\x80", b"\xff\xfe", b"\xc0\x80", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"ok\xf0\x9f\x98", b"\xf8\x88\x80\x80\x80", b"a\xc3"):
            e = ref.enc_base(p.sst, len(bad)) + bad
            cases.append(Case(k, f"D 0 0 x{e.hex()}", noalarm))
    ck.run(bs, cases)
    return ck.finish(1000, [f"{l} OK" for l in H.LANGS])
