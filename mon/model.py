"""An independent description of protocols: random generation, TOML text, values.

Nothing here imports the code under test.

Values: numbers and enums are ints, bool is 0/1, float/double are their IEEE bit
patterns (ints), strings are bytes (UTF-8), structs and messages are lists of
member values in declaration order, lists are lists.
"""
import random

BASE = ["byte", "bool", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double"]
SIZE = {"byte": 1, "bool": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4, "uint64": 8, "int64": 8, "float": 4, "double": 8}
SIZE_TYPES = ["byte", "uint16", "int16", "uint32", "int32", "uint64", "int64"]
RANGE = {"byte": (0, 255), "uint16": (0, 65535), "int16": (-32768, 32767), "uint32": (0, 2**32 - 1), "int32": (-2**31, 2**31 - 1),
         "uint64": (0, 2**64 - 1), "int64": (-2**63, 2**63 - 1)}

ALL_LANGS = ["c", "csharp", "go", "rust", "swift", "typescript", "assemblyscript", "zig"]


class Enum:
    def __init__(self, name, values, explicit=True):
        self.name, self.values, self.explicit = name, list(values), explicit
        lo, hi = min(v for _, v in values), max(v for _, v in values)
        for t in ("byte", "int16", "int32"):
            if RANGE[t][0] <= lo and hi <= RANGE[t][1]:
                self.enc = t
                break
        else:
            raise ValueError("enum range")

    @property
    def default(self):
        return self.values[0][1]

    def declared(self):
        return {v for _, v in self.values}

    def name_of(self, v):
        return next(n for n, x in self.values if x == v)


class Member:
    def __init__(self, name, type, is_list=False):
        self.name, self.type, self.is_list = name, type, is_list

    def __repr__(self):
        return f"{self.name}:{'[' + self.type + ']' if self.is_list else self.type}"


class Struct:
    def __init__(self, name, members):
        self.name, self.members = name, list(members)


class Proto:
    def __init__(self, ns, enums, structs, messages, lst=None, sst=None):
        self.ns, self.lst_decl, self.sst_decl = ns, lst, sst
        self.enums = {e.name: e for e in enums}
        self.structs = {s.name: s for s in structs}
        self.messages = {m.name: m for m in messages}
        self.msgs = list(messages)
        self.order = None      # optional order of the three sections in the file

    @property
    def lst(self):
        return self.lst_decl or "uint32"

    @property
    def sst(self):
        return self.sst_decl or "uint32"

    def toml(self, comments=()):
        out = []
        for c in comments:
            out.append("# " + c)
        if self.ns is not None or self.lst_decl or self.sst_decl:
            out.append("[meta]")
            if self.ns is not None:
                out.append(f'namespace = "{self.ns}"')
            if self.lst_decl:
                out.append(f'list_size_type = "{self.lst_decl}"')
            if self.sst_decl:
                out.append(f'string_size_type = "{self.sst_decl}"')
            out.append("")

        def enums():
            for e in self.enums.values():
                out.append("[[enums]]")
                out.append(f'_name = "{e.name}"')
                if e.explicit:
                    out.append("_values = [")
                    for n, v in e.values:
                        out.append(f'    {{ _name = "{n}", _value = {v} }},')
                    out.append("]")
                else:
                    out.append("_values = [" + ", ".join(f'"{n}"' for n, _ in e.values) + "]")
                out.append("")

        def sts(kind, d):
            for s in d.values():
                out.append(f"[[{kind}]]")
                out.append(f'_name = "{s.name}"')
                for m in s.members:
                    t = f"[{m.type}]" if m.is_list else m.type
                    out.append(f'{m.name} = "{t}"')
                out.append("")
        for sec in self.order or ("enums", "structs", "messages"):
            if sec == "enums":
                enums()
            elif sec == "structs":
                sts("structs", self.structs)
            else:
                sts("messages", self.messages)
        return "\n".join(out) + "\n"

    # ---- facts about types
    def container(self, name):
        return self.structs.get(name) or self.messages[name]

    def kind(self, t):
        if t in SIZE:
            return "base"
        if t == "string":
            return "string"
        if t in self.enums:
            return "enum"
        return "struct"

    def is_simple(self, t):
        k = self.kind(t)
        if k == "string":
            return False
        if k == "struct":
            return all(not m.is_list and self.is_simple(m.type) for m in self.structs[t].members)
        return True

    def is_simple_msg(self, st):
        return all(not m.is_list and self.is_simple(m.type) for m in st.members)

    def uses(self, st, pred, seen=()):
        """does any member (recursively) satisfy pred(member)?"""
        for m in st.members:
            if pred(m):
                return True
            if m.type in self.structs and self.uses(self.structs[m.type], pred):
                return True
        return False

    def used_structs(self):
        return list(self.structs.values())

    def describe(self):
        f = lambda s: f"{s.name}{{{', '.join(map(repr, s.members))}}}"
        return (f"ns={self.ns} lists={self.lst} strings={self.sst} enums={{{', '.join(e.name + ':' + e.enc + str([v for _, v in e.values]) for e in self.enums.values())}}} "
                f"structs=[{'; '.join(map(f, self.structs.values()))}] messages=[{'; '.join(map(f, self.msgs))}]")


# ---------------------------------------------------------------- generation

MEMBER_NAMES = ["alpha", "beta", "items", "names", "pos", "flags", "data_points", "colorValue", "x", "y", "z2", "theLongName", "score",
                "owner", "tags", "inner", "nested", "kids", "role", "status", "first_name", "lastSeen", "hp", "mana", "grid", "rows"]
TYPE_NAMES = ["Vec2", "Color", "Item", "Node", "Bundle", "MetaInfo", "Slot", "Team", "Rect", "Leaf", "Branch", "Region"]
MSG_NAMES = ["Join", "Leave", "Update", "Chat", "Spawn", "Snapshot", "Ping", "Trade", "Login", "WorldState", "Effect", "Notice"]
ENUM_NAMES = ["Role", "Kind", "Status", "Mode", "Weather", "Phase"]
VALUE_NAMES = ["Able", "Baker", "Charlie", "Delta", "Echo", "Foxtrot", "Golf", "Hotel", "India", "Juliet"]


def gen_enum(rng, name, style=None):
    style = style or rng.choice(["dense", "dense", "sparse", "negative", "unordered", "edge16", "edge32", "single", "zero_later"])
    n = rng.randint(2, 5)
    names = rng.sample(VALUE_NAMES, 8)
    if style == "dense":
        return Enum(name, list(zip(names[:n], range(n))), explicit=rng.random() < 0.3)
    if style == "sparse":
        vs = sorted(rng.sample(range(0, 256), n))
    elif style == "negative":
        vs = [-1, 0, 3] if rng.random() < 0.5 else sorted(rng.sample(range(-300, 300), n))
        if min(vs) >= 0:
            vs[0] = -2
    elif style == "unordered":
        vs = rng.choice([[256, 512, 1024, -1], [7, 3, 5, 0], [200, 10, 90], [40000, -5, 12, 100000], [5, 2]])
    elif style == "edge16":
        vs = rng.choice([[0, 256], [-32768, 32767], [-1, 255], [32767, 0, 1], [0, 255], [-32768, 0]])
    elif style == "edge32":
        vs = rng.choice([[0, 32768], [-32769, 0], [-2**31, 2**31 - 1, 0], [65535, 65536], [2**31 - 1, 1]])
    elif style == "single":
        vs = [rng.choice([0, 1, 7, -3, 300, 70000])]
    else:
        vs = [3, 0, 1] if rng.random() < 0.5 else [404, 0, 200]
    return Enum(name, list(zip(names, vs)))


def gen_proto(rng, ns, lst=None, sst=None, big=False, out_of_order=False, lower_names=False, features=None):
    ne = rng.randint(1, 3)
    enames = rng.sample(ENUM_NAMES, ne)
    enums = [gen_enum(rng, n) for n in enames]
    nstr = rng.randint(2, 5 if not big else 8)
    snames = rng.sample(TYPE_NAMES, nstr)
    structs = []
    # a small pool of names so that nested members share names with their parents
    pool = rng.sample(MEMBER_NAMES, 8)

    def pick_members(n, allow_types, simple):
        ms = []
        for nm in rng.sample(pool, min(n, len(pool))):
            r = rng.random()
            if simple:
                if r < 0.25:
                    t = rng.choice(enames)
                elif r < 0.5 and allow_types:
                    t = rng.choice(allow_types)
                else:
                    t = rng.choice(BASE)
                ms.append(Member(nm, t, False))
            else:
                if r < 0.22:
                    t = "string"
                elif r < 0.38:
                    t = rng.choice(enames)
                elif r < 0.68 and allow_types:
                    t = rng.choice(allow_types)
                else:
                    t = rng.choice(BASE)
                ms.append(Member(nm, t, rng.random() < 0.45))
        return ms
    simple_names = []
    for i, sn in enumerate(snames):
        simple = i == 0 or rng.random() < 0.4
        if simple:
            ms = pick_members(rng.randint(1, 4), simple_names, True)
            structs.append(Struct(sn, ms))
            simple_names.append(sn)
        else:
            structs.append(Struct(sn, pick_members(rng.randint(1, 5), [s.name for s in structs], False)))
    if out_of_order:
        rng.shuffle(structs)
    snames2 = [s.name for s in structs]
    nm = rng.randint(3, 5 if not big else 8)
    messages = []
    for i, mn in enumerate(rng.sample(MSG_NAMES, nm)):
        r = rng.random()
        if r < 0.08:
            ms = []
        elif r < 0.25:
            ms = pick_members(rng.randint(1, 5), simple_names, True)
        else:
            ms = pick_members(rng.randint(2, 7), snames2, False)
        messages.append(Struct(mn, ms))
    return Proto(ns, enums, structs, messages, lst, sst)


def core_proto(ns, lst=None, sst=None):
    """Every kind of type in every kind of position, once."""
    e1 = Enum("Role", [("Able", 256), ("Baker", 512), ("Charlie", 1024), ("Delta", -1)])
    e2 = Enum("Kind", [("Echo", 0), ("Foxtrot", 1), ("Golf", 2)], explicit=False)
    e3 = Enum("Phase", [("Hotel", 70000), ("India", -70000), ("Juliet", 0)])
    e4 = Enum("Mode", [("Able", 9), ("Baker", 3), ("Charlie", 5)])
    M = Member
    base = Struct("Scalars", [M("b", "byte"), M("t", "bool"), M("u16", "uint16"), M("s16", "int16"), M("u32", "uint32"), M("s32", "int32"),
                              M("u64", "uint64"), M("s64", "int64"), M("f32", "float"), M("f64", "double")])
    se = Struct("Tagged", [M("role", "Role"), M("kind", "Kind"), M("hp", "int16")])
    deep = Struct("Deep", [M("pos", "Tagged"), M("scalars", "Scalars"), M("phase", "Phase")])
    deeper = Struct("Deeper", [M("inner", "Deep"), M("mode", "Mode")])
    text = Struct("Text", [M("names", "string"), M("score", "int32")])
    lists = Struct("Lists", [M("items", "string", True), M("flags", "bool", True), M("rows", "Text", True)])
    nest = Struct("Nest", [M("items", "Lists", True), M("owner", "Text"), M("role", "Role", True), M("inner", "Deeper")])
    m1 = Struct("AllScalars", base.members)
    m2 = Struct("AllLists", [M("l_" + m.name, m.type, True) for m in base.members] + [M("l_str", "string", True), M("l_role", "Role", True), M("l_kind", "Kind", True),
                                                                                  M("l_phase", "Phase", True), M("l_mode", "Mode", True)])
    m3 = Struct("Structs", [M("scalars", "Scalars"), M("tagged", "Tagged"), M("deeper", "Deeper"), M("text", "Text"), M("lists", "Lists"), M("nest", "Nest")])
    m4 = Struct("StructLists", [M("items", "Nest", True), M("scalars", "Scalars", True), M("tagged", "Tagged", True), M("deeper", "Deeper", True), M("rows", "Text", True)])
    m5 = Struct("Empty", [])
    m6 = Struct("Enums", [M("role", "Role"), M("kind", "Kind"), M("phase", "Phase"), M("mode", "Mode"), M("roles", "Role", True)])
    m7 = Struct("Strings", [M("alpha", "string"), M("beta", "string"), M("names", "string", True), M("text", "Text")])
    return Proto(ns, [e1, e2, e3, e4], [base, se, deep, deeper, text, lists, nest], [m1, m2, m3, m4, m5, m6, m7], lst, sst)


def marker_proto(ns, lst=None, sst=None):
    """structs without members (they take no bytes), as members, in lists and inside other structs"""
    M = Member
    e = Enum("Kind", [("Echo", 1), ("Foxtrot", 0)])
    mark = Struct("Marker", [])
    pair = Struct("Pair", [M("first", "Marker"), M("second", "Marker")])
    hold = Struct("Holder", [M("one", "Marker"), M("marks", "Marker", True), M("pair", "Pair")])
    mix = Struct("Mixed", [M("lead", "Marker"), M("score", "int16"), M("kind", "Kind"), M("tail", "Pair")])
    m1 = Struct("Only", [M("one", "Marker")])
    m2 = Struct("Many", [M("marks", "Marker", True), M("pairs", "Pair", True)])
    m3 = Struct("Around", [M("b", "byte"), M("marks", "Marker", True), M("u64", "uint64"), M("pair", "Pair"), M("names", "string"), M("one", "Marker")])
    m4 = Struct("Held", [M("holder", "Holder"), M("holders", "Holder", True), M("mixed", "Mixed"), M("rows", "Mixed", True)])
    m5 = Struct("Nothing", [])
    return Proto(ns, [e], [mark, pair, hold, mix], [m1, m2, m3, m4, m5], lst, sst)


def twin_proto(ns, lst=None, sst=None, rng=None):
    """names that differ only in case, or begin with one another; member names that begin with a capital; lists of structs of
    lists of structs, five deep, with text at the bottom"""
    M = Member
    e = [Enum("Mode", [("On", 3), ("ON", -1), ("Once", 300)]), Enum("MODE", [("On", 1), ("ON", 0)]), Enum("Mode2", [("Mode", 0), ("MODE", 70000)])]
    st = [Struct("Spot", [M("X", "int16"), M("Y", "int16"), M("mode", "Mode")]),
          Struct("SPOT", [M("X", "float"), M("SomeValue", "MODE")]),
          Struct("Spot2", [M("SomeValue", "Mode2"), M("spot", "Spot"), M("spot2", "SPOT"), M("HPMax", "uint64")]),
          Struct("L5", [M("names", "string", True), M("X", "byte"), M("Title", "string")]),
          Struct("L4", [M("down", "L5", True), M("X", "uint16")]),
          Struct("L3", [M("X", "SPOT"), M("down", "L4", True), M("down2", "L5", True)]),
          Struct("L2", [M("down", "L3", True), M("Down3", "Spot2", True)]),
          Struct("L1", [M("X", "uint32"), M("down", "L2", True), M("Modes", "MODE", True)])]
    ms = [Struct("Ping", [M("X", "int16"), M("item", "byte"), M("items", "byte", True), M("item2", "bool")]),
          Struct("PING", [M("X", "int16"), M("item", "byte"), M("items", "byte", True), M("item2", "bool")]),
          Struct("PingPong", [M("Names", "string", True), M("modes", "Mode", True), M("modes2", "Mode2", True)]),
          Struct("Pingpong", [M("Spots", "Spot", True), M("spots2", "Spot2", True), M("MySpot", "SPOT")]),
          Struct("Ping2", [M("down", "L1", True), M("Deep", "L2")]),
          Struct("Deep", [M("down", "L1", True)])]
    if rng:
        for l in (e, st, ms):
            rng.shuffle(l)
    return Proto(ns, e, st, ms, lst, sst)


# ---------------------------------------------------------------- values

STRINGS = ["", "", "a", "hello", "Zoë", "日本語", "🙂👩‍👩‍👧", "naïve café", "x" * 40, "é" * 60, "a\u0301", "nul\0inside", "\0", "\n\t\"\\'", "Ωmega ß", "\U0010FFFF",
           "\uFFFD", "ends with \\", "%s%n{}", "\u200b", "0", "\ufefftext", "\ufeff", "a\ufeff", "\x7f", "\ud7ff\ue000"]
F32 = [0, 0x80000000, 0x3F800000, 0xBF800000, 0x7F800000, 0xFF800000, 0x7FC00000, 1, 0x007FFFFF, 0x7F7FFFFF, 0x40490FDB, 0x4B000001]
F64 = [0, 1 << 63, 0x3FF0000000000000, 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 1, 0x000FFFFFFFFFFFFF, 0x7FEFFFFFFFFFFFFF, 0x400921FB54442D18]


def gen_base(rng, t):
    if t == "bool":
        return rng.randint(0, 1)
    if t == "float":
        if rng.random() < 0.6:
            return rng.choice(F32)
        v = rng.getrandbits(32)
        return v if (v >> 23) & 0xFF != 0xFF else 0x3F000000
    if t == "double":
        if rng.random() < 0.6:
            return rng.choice(F64)
        v = rng.getrandbits(64)
        return v if (v >> 52) & 0x7FF != 0x7FF else 0x3FE0000000000000
    lo, hi = RANGE[t]
    r = rng.random()
    if r < 0.45:
        return rng.choice([lo, hi, 0, 1, hi - 1, hi // 2, hi // 2 + 1, lo // 2, -1 if lo < 0 else 128])
    return rng.randint(lo, hi)


def maxlen(t):
    return RANGE[t][1]


class ValueGen:
    def __init__(self, rng, proto, max_list=4, strings=None, list_len=None, str_fn=None):
        self.rng, self.p, self.max_list = rng, proto, max_list
        self.strings = strings or STRINGS
        self.list_len = list_len
        self.str_fn = str_fn

    def of(self, t, depth=0):
        k = self.p.kind(t)
        if k == "base":
            return gen_base(self.rng, t)
        if k == "string":
            if self.str_fn:
                return self.str_fn(self.rng)
            if self.rng.random() < 0.85:
                s = self.rng.choice(self.strings)
            else:
                s = "".join(chr(self.rng.choice([self.rng.randint(0, 0x7F), self.rng.randint(0x80, 0x7FF), self.rng.randint(0x800, 0xD7FF),
                                                 self.rng.randint(0x10000, 0x10FFFF)])) for _ in range(self.rng.randint(1, 12)))
            b = s.encode("utf-8")
            return b if len(b) <= maxlen(self.p.sst) else b""
        if k == "enum":
            return self.rng.choice(self.p.enums[t].values)[1]
        return self.struct(self.p.structs[t], depth + 1)

    def struct(self, st, depth=0):
        out = []
        for m in st.members:
            if m.is_list:
                if self.list_len is not None:
                    n = self.list_len(self.rng, depth)
                else:
                    n = self.rng.choice([0, 1, 2, self.max_list]) if depth < 3 else self.rng.choice([0, 1, 1, 2])
                out.append([self.of(m.type, depth) for _ in range(n)])
            else:
                out.append(self.of(m.type, depth))
        return out

    def message(self, mi):
        return self.struct(self.p.msgs[mi])


def default_value(p, st):
    def of(t):
        k = p.kind(t)
        if k == "base":
            return 0
        if k == "string":
            return b""
        if k == "enum":
            return p.enums[t].default
        return default_value(p, p.structs[t])
    return [[] if m.is_list else of(m.type) for m in st.members]


class LongGen(ValueGen):
    """values in which one list or string, chosen at random among all positions met, is long and everything else short"""
    LENGTHS = [20, 33, 65, 130, 257, 300, 520, 1025, 2500, 5000]

    def __init__(self, rng, proto, lengths=None):
        super().__init__(rng, proto, max_list=2)
        self.lengths, self.at, self.seen, self.n = lengths or self.LENGTHS, -1, 0, 0

    def hit(self):
        self.seen += 1
        return self.seen - 1 == self.at

    def of(self, t, depth=0):
        if self.p.kind(t) == "string":
            if self.hit():
                n = min(self.n, maxlen(self.p.sst))
                return ("".join(self.rng.choice("abcdefg h") for _ in range(n - n % 2)) if self.rng.random() < 0.6 else "é" * (n // 2)).encode()
            b = self.rng.choice([b"", b"a", b"hello", "Zo\u00eb".encode()])
            return b if len(b) <= maxlen(self.p.sst) else b""
        return super().of(t, depth)

    def struct(self, st, depth=0):
        out = []
        for m in st.members:
            if m.is_list:
                if self.hit():
                    n, self.at = min(self.n, maxlen(self.p.lst)), -2
                else:
                    n = self.rng.choice([0, 1, 2]) if depth < 2 and self.at != -2 else self.rng.choice([0, 0, 1])
                out.append([self.of(m.type, depth) for _ in range(n)])
            else:
                out.append(self.of(m.type, depth))
        return out

    def message(self, mi, limit=150000):
        """None when the message has no list or string, or would be too large"""
        from . import ref
        for _ in range(4):
            self.at, self.seen, self.n = -1, 0, 0
            self.struct(self.p.msgs[mi])
            if not self.seen:
                return None
            self.at, self.seen, self.n = self.rng.randrange(self.seen), 0, self.rng.choice(self.lengths)
            v = self.struct(self.p.msgs[mi])
            if len(ref.encode(self.p, self.p.msgs[mi], v)) <= limit:
                return v
        return None
