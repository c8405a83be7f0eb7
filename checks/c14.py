"""C14: which protocol files are accepted, and that every decision is reached."""
import itertools, os
from mon import harness as H, model, common, cli
from mon.cli import Doc, Raw

BASES = list(model.BASE) + ["string"]
RESERVED = list(model.BASE) + ["string", "list"]
SPACES = [" ", "\t", "\n", "\r", "\x0b", "\x0c"]


def spaced(rng, s):
    w = rng.choice(SPACES)
    i = rng.choice([0, len(s), rng.randint(0, len(s))])
    return s[:i] + w + s[i:]


def rename_key(t, old, new):
    items = [(new if k == old else k, v) for k, v in t.items()]
    t.clear()
    t.update(items)


def members(t):
    return [k for k in t if not k.startswith("_")]


# ------------------------------------------------- breaking one documented rule; each returns a note, or None when not applicable

def m_unknown_type(rng, d):
    t = d.pick(rng, "structs", "messages")
    names = [x["_name"] for _, x in d.tables]
    bad = rng.choice(["Nope", "int8", "uint", "Byte", "INT32", "Float", "String", "char", "bytes", "list", "struct", "", "bool ", " bool", "uint16,", "float64", "int",
                      names[0].upper() + "X", names[0] + "s", names[-1].lower() + "_", "_name", "string[]", "byte[4]"])
    if bad in names:
        return None
    t["newMember"] = rng.choice([bad, f"[{bad}]"])
    return f"unknown type {t['newMember']!r}"


def m_bad_brackets(rng, d):
    t = d.pick(rng, "structs", "messages")
    t["newMember"] = rng.choice(["[byte", "byte]", "[]", "[", "]", "(byte)", "[byte][", "[byte,byte]", "{byte}"])
    return f"type {t['newMember']!r}"


def m_nested_list(rng, d):
    t = d.pick(rng, "structs", "messages")
    s = d.pick(rng, "structs", "enums")
    inner = rng.choice(BASES + ([s["_name"]] if s else []))
    t["newMember"] = rng.choice([f"[[{inner}]]", f"[[[{inner}]]]"])
    return f"list of lists {t['newMember']!r}"


def m_space_ns(rng, d):
    d.meta["namespace"] = spaced(rng, d.meta.get("namespace") or "Ns")
    return f"whitespace in namespace {d.meta['namespace']!r}"


def m_space_name(rng, d):
    t = d.pick(rng, rng.choice(["structs", "messages", "enums"]))
    if not t:
        return None
    old = t["_name"]
    t["_name"] = spaced(rng, old)
    # follow the references, so that this is the only thing wrong
    for _, x in d.tables:
        for k in members(x):
            if x[k] == old:
                x[k] = t["_name"]
            elif x[k] == f"[{old}]":
                x[k] = f"[{t['_name']}]"
    return f"whitespace in name {t['_name']!r}"


def m_space_member(rng, d):
    t = d.pick(rng, "structs", "messages")
    if not members(t):
        t["someMember"] = "byte"
    k = rng.choice(members(t))
    n = spaced(rng, k)
    rename_key(t, k, n)
    return f"whitespace in member {n!r}"


def m_space_value(rng, d):
    t = d.pick(rng, "enums")
    if not t:
        return None
    i = rng.randrange(len(t["_values"]))
    v = t["_values"][i]
    if isinstance(v, dict):
        v["_name"] = spaced(rng, v["_name"])
    else:
        t["_values"][i] = spaced(rng, v)
    return f"whitespace in enum value {t['_values'][i]!r}"


def m_no_name(rng, d):
    t = d.pick(rng, rng.choice(["structs", "messages", "enums"]))
    if not t:
        return None
    n = t.pop("_name")
    if rng.random() < 0.3:
        t["name"] = "string" if "_values" not in t else n
    return f"{n} without _name"


def m_empty_name(rng, d):
    t = d.pick(rng, rng.choice(["structs", "messages", "enums"]))
    if not t:
        return None
    n, t["_name"] = t["_name"], ""
    return f"{n} with an empty _name"


def m_name_type(rng, d):
    t = d.pick(rng, rng.choice(["structs", "messages", "enums"]))
    if not t:
        return None
    t["_name"] = rng.choice([5, True, 1.5, {"a": 1}])
    return f"_name {t['_name']!r}"


def m_dup_name(rng, d):
    if len(d.tables) < 2:
        return None
    a, b = rng.sample(range(len(d.tables)), 2)
    (ka, ta), (kb, tb) = d.tables[a], d.tables[b]
    old = tb["_name"]
    tb["_name"] = ta["_name"]
    for _, x in d.tables:      # nothing may refer to the name that is gone
        for k in members(x):
            if x[k] in (old, f"[{old}]"):
                x[k] = "byte"
    return f"{ka} and {kb} both named {ta['_name']}"


def m_dup_copy(rng, d):
    i = rng.randrange(len(d.tables))
    import copy
    d.tables.insert(rng.randint(0, len(d.tables)), copy.deepcopy(d.tables[i]))
    return f"{d.tables[i][0]} {d.tables[i][1]['_name']} twice"


def m_reserved_name(rng, d):
    t = d.pick(rng, rng.choice(["structs", "messages", "enums"]))
    if not t:
        return None
    old, t["_name"] = t["_name"], rng.choice([str, str, str.capitalize, str.upper])(rng.choice(RESERVED))
    for _, x in d.tables:
        for k in members(x):
            if x[k] in (old, f"[{old}]"):
                x[k] = "byte"
    return f"{old} renamed to {t['_name']}"


def m_reserved_member(rng, d):
    t = d.pick(rng, "structs", "messages")
    t[rng.choice(RESERVED)] = rng.choice(BASES)
    return f"member {list(t)[-1]}"


def m_cycle(rng, d):
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 12, 30])
    names = [f"Ring{i}" for i in range(n)]
    tabs = []
    for i, nm in enumerate(names):
        t = {"_name": nm}
        nxt = names[(i + 1) % n]
        ms = [("next", rng.choice([nxt, f"[{nxt}]"]))]
        for j in range(rng.randint(0, 3)):
            ms.insert(rng.randint(0, len(ms)), (f"fill{j}", rng.choice(BASES)))
        t.update(ms)
        tabs.append(("structs", t))
    rng.shuffle(tabs)
    for t in tabs:
        d.tables.insert(rng.randint(0, len(d.tables)), t)
    how = rng.choice(["alone", "from a message", "from a struct", "into a struct"])
    old = [t for k, t in d.tables if k == "structs" and not t["_name"].startswith("Ring")]
    if how == "from a message":
        m = d.pick(rng, "messages")
        if m:
            m["ring"] = rng.choice(names)
    elif how == "from a struct" and old:
        rng.choice(old)["ring"] = rng.choice(names)
    elif how == "into a struct" and old:
        rng.choice([t for _, t in tabs])["leaf"] = rng.choice(old)["_name"]
    return f"ring of {n} {how}"


def m_back_edge(rng, d):
    """an edge that closes a cycle among the structs there are"""
    st = {t["_name"]: t for k, t in d.tables if k == "structs"}
    if not st:
        return None
    deps = lambda n: {v.strip("[]") for k, v in st[n].items() if not k.startswith("_")} & set(st)
    reach = {}
    for n in st:
        seen, todo = {n}, [n]
        while todo:
            for x in deps(todo.pop()):
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        reach[n] = seen
    a = rng.choice(list(st))
    b = rng.choice(sorted(reach[a]))
    st[b]["backEdge"] = rng.choice([a, f"[{a}]"])
    return f"{b} -> {a} closes a cycle"


def m_size_type(rng, d):
    d.meta[rng.choice(["list_size_type", "string_size_type"])] = rng.choice(["float", "double", "bool", "string", "list", "int8", "uint8", "Byte", "UINT32", "int", "", "uint32 ", "[byte]", "uint128", 4, True])
    return f"size types {d.meta}"


def m_message_in(rng, d):
    ms = [t["_name"] for k, t in d.tables if k == "messages"]
    t = d.pick(rng, "structs", "messages")
    if not ms:
        return None
    n = rng.choice(ms)
    t["newMember"] = rng.choice([n, f"[{n}]"])
    return f"{t['_name']} contains message {n}"


def m_values(rng, d):
    t = d.pick(rng, "enums")
    if not t:
        return None
    n = len(t["_values"])
    how = rng.choice(["missing", "empty", "string", "number", "table", "ints", "mixed", "no _name", "no _value", "name type", "value type", "dup name", "dup name strings", "dup value",
                      "range", "nested"])
    tables = [dict(v) if isinstance(v, dict) else {"_name": v, "_value": i} for i, v in enumerate(t["_values"])]
    i = rng.randrange(n)
    if how == "missing":
        del t["_values"]
        if rng.random() < 0.4:
            t["values"] = ["A", "B"]
    elif how == "empty":
        t["_values"] = []
    elif how == "string":
        t["_values"] = "Able, Baker"
    elif how == "number":
        t["_values"] = 3
    elif how == "table":
        t["_values"] = {"Able": 0, "Baker": 1}
    elif how == "ints":
        t["_values"] = [0, 1, 2]
    elif how == "nested":
        t["_values"] = [["Able"], ["Baker"]]
    elif how == "mixed":
        tables.insert(rng.randint(0, n), "Extra")
        t["_values"] = tables
    elif how == "no _name":
        del tables[i]["_name"]
        t["_values"] = tables
    elif how == "no _value":
        del tables[i]["_value"]
        t["_values"] = tables
    elif how == "name type":
        tables[i]["_name"] = rng.choice([5, True, ["a"], 2.5])
        t["_values"] = tables
    elif how == "value type":
        tables[i]["_value"] = rng.choice(["5", True, 2.5, [1], Raw("1979-05-27"), Raw("nan")])
        t["_values"] = tables
    elif how == "dup name":
        tables.insert(rng.randint(0, n), {"_name": tables[i]["_name"], "_value": max(x["_value"] for x in tables) + rng.choice([1, 5])})
        t["_values"] = tables
    elif how == "dup name strings":
        names = [x["_name"] for x in tables]
        names.insert(rng.randint(0, n), rng.choice(names))
        t["_values"] = names
    elif how == "dup value":
        tables.insert(rng.randint(0, n), {"_name": "Twin", "_value": tables[i]["_value"]})
        t["_values"] = tables
    elif how == "range":
        tables.insert(rng.randint(0, n), {"_name": "Twin", "_value": rng.choice([2**31, -2**31 - 1, 2**40, 2**63 - 1, -2**63])})
        t["_values"] = tables
    return f"enum {t['_name']} values: {how}"


def m_value_shadows(rng, d):
    t = d.pick(rng, "enums")
    o = d.pick(rng, "structs", "messages")
    if not t or not o:
        return None
    i = rng.randrange(len(t["_values"]))
    if isinstance(t["_values"][i], dict):
        t["_values"][i]["_name"] = o["_name"]
    else:
        t["_values"][i] = o["_name"]
    return f"enum value named {o['_name']}"


def m_member_type_kind(rng, d):
    t = d.pick(rng, "structs", "messages")
    t["newMember"] = rng.choice([5, True, 2.5, ["byte"], [], {"type": "byte"}, ["byte", "byte"], Raw("1979-05-27")])
    return f"member type {t['newMember']!r}"


def m_many(rng, d):
    have = sum(k == "messages" for k, _ in d.tables)
    for i in range(rng.choice([256, 256, 257, 300]) - have):
        t = {"_name": f"Many{i}"}
        if rng.random() < 0.2:
            t["a"] = rng.choice(BASES)
        d.tables.insert(rng.randint(0, len(d.tables)), ("messages", t))
    return "more than 255 messages"


def m_kind(rng, d):
    kind = rng.choice(["structs", "messages", "enums"])
    keep = [x for x in d.tables if x[0] != kind]
    d.tables = [x for x in keep if x[0] != "messages"]
    d.head = rng.choice([f"{kind} = 5", f'{kind} = "text"', f"{kind} = [1, 2]", f'{kind} = ["a"]', f"{kind} = true", "meta = 3", "meta = true"])
    if d.head.startswith("meta"):
        d.meta = {}
    else:
        d.tables = [x for x in d.tables if x[0] != kind]
        for _, t in d.tables:
            for k in members(t):
                t[k] = "byte"
    return d.head


def m_syntax(rng, d):
    d.head = rng.choice(["[meta", "= 5", "a = ", "a b = 1", '"', "[[x]", "a = 1\na = 2", "[t]\n[t]", "a = 'unterminated", "\x00", "a = 01", "a = [1", "key", "a = \"\\q\"", "@", "[]\n"])
    return f"TOML error {d.head!r}"


BREAKS = [m_unknown_type, m_bad_brackets, m_nested_list, m_space_ns, m_space_name, m_space_member, m_space_value, m_no_name, m_empty_name, m_name_type, m_dup_name, m_dup_copy,
          m_reserved_name, m_reserved_member, m_cycle, m_back_edge, m_size_type, m_message_in, m_values, m_values, m_values, m_value_shadows, m_member_type_kind, m_many, m_kind, m_syntax]


# ------------------------------------------------- valid files

def valid(rng, i):
    p = model.gen_proto(rng, f"Good{i}", *(H.size_pair(rng) if rng.random() < 0.7 else (None, None)), big=rng.random() < 0.2, out_of_order=rng.random() < 0.5)
    d = Doc.of(p)
    notes = []
    if rng.random() < 0.5:
        rng.shuffle(d.tables)
        notes.append("shuffled tables")
    if rng.random() < 0.15:
        d.meta.pop("namespace", None)
        notes.append("no namespace")
    if rng.random() < 0.15:
        d.meta = {}
        notes.append("no meta")
    if rng.random() < 0.15:
        d.tables.append(("structs", {"_name": "Unused", "a": "[string]", "b": "bool"}))
    if rng.random() < 0.15:
        d.tables.insert(0, ("messages", {"_name": "Nothing"}))
    if rng.random() < 0.1:
        have = sum(k == "messages" for k, _ in d.tables)
        for j in range(255 - have):
            d.tables.append(("messages", {"_name": f"M{j}"}))
        notes.append("255 messages")
    if rng.random() < 0.1:
        d.tables.append(("enums", {"_name": "Edge", "_values": [{"_name": "Lo", "_value": -2**31}, {"_name": "Hi", "_value": 2**31 - 1}]}))
    if rng.random() < 0.1:
        # diamonds: many paths, no cycle
        n = rng.randint(2, 7)
        for j in range(n):
            d.tables.append(("structs", {"_name": f"Dia{j}", **({"a": f"[Dia{j + 1}]", "b": f"Dia{j + 1}"} if j + 1 < n else {"a": "byte"})}))
        notes.append("diamonds")
    if rng.random() < 0.06:
        n = rng.randint(20, 60)
        for j in rng.sample(range(n), n):
            d.tables.append(("structs", {"_name": f"Chain{j}", "a": (f"[Chain{j + 1}]" if j % 2 else f"Chain{j + 1}") if j + 1 < n else "string"}))
        notes.append("long chain")
    if rng.random() < 0.2:
        # a member may share its name with a type, an enum value or another member elsewhere
        t = d.pick(rng, "structs", "messages")
        nm = rng.choice(["Bytes", "lists", "str", "strings", "int", "Float2", "name", "values", "boolean", "my_list", "byte2", "a-b"[:1]])
        t[nm] = rng.choice(BASES)
    if rng.random() < 0.1:
        t = d.pick(rng, "structs", "messages")
        t["_note"] = "underscored keys are not members"
        del t["_note"]
    if rng.random() < 0.3:
        d.head = "# " + rng.choice(["[[structs]]", "a comment", "日本語", "list_size_type = \"float\"", "\"\"\""])
    return d, ", ".join(notes)


def graph_doc(n, edges, rng):
    """one struct per node; edges as members, plain or list"""
    tabs = []
    for i in range(n):
        t = {"_name": f"N{i}"}
        for j in range(n):
            if (i, j) in edges:
                t[f"to{j}"] = rng.choice([f"N{j}", f"[N{j}]"])
        t["leaf"] = "byte"
        tabs.append(("structs", t))
    rng.shuffle(tabs)
    tabs.append(("messages", {"_name": "Top", "a": f"N{rng.randrange(n)}"}))
    return Doc({"namespace": "Graph"}, tabs)


def cyclic(n, edges):
    adj = {i: [j for j in range(n) if (i, j) in edges] for i in range(n)}
    deg = {i: 0 for i in range(n)}
    for i, j in edges:
        deg[j] += 1
    todo = [i for i in range(n) if not deg[i]]
    k = 0
    while todo:
        k += 1
        for j in adj[todo.pop()]:
            deg[j] -= 1
            if not deg[j]:
                todo.append(j)
    return k < n


def main():
    ck = H.Check("C14", rule="a case is one protocol file given to the real command: valid ones (random protocols, table orders, diamonds, chains, 255 messages), each documented rule broken in a "
                 "random place of a random valid one, every directed reference graph on 3 structs and sampled larger ones; expected verdicts come from the construction, never from the "
                 "code under test; a decision that uses more than 20 CPU seconds counts as never reached")
    rng = ck.rng
    cases = []          # (text, accept?, note, kind)
    for i in range(ck.budget(480, 2500)):
        d, note = valid(rng, i)
        cases.append((d.text(), True, "valid " + note, "valid"))
        if i % 4 == 0:
            t = d.text().replace("\n", "\r\n")
            cases.append((t, True, "valid, CRLF " + note, "valid crlf"))
    for fn in BREAKS:
        n = 0
        tries = 0
        want = ck.budget(90, 500) if fn is not m_many else ck.budget(6, 20)
        while n < want and tries < want * 6:
            tries += 1
            d, _ = valid(rng, tries)
            note = fn(rng, d)
            if note is None:
                continue
            n += 1
            if rng.random() < 0.15 and fn is not m_kind:
                g = rng.choice(BREAKS[:-3])      # two things wrong at once
                try:
                    note2 = g(rng, d)
                except Exception:
                    note2 = None
                note += f" + {note2}" if note2 else ""
            cases.append((d.text(), False, note, fn.__name__[2:]))
    allpairs = [(i, j) for i in range(3) for j in range(3)]
    for bits in range(512):
        e = {allpairs[b] for b in range(9) if bits >> b & 1}
        cases.append((graph_doc(3, e, rng).text(), not cyclic(3, e), f"graph {sorted(e)}", "graph3"))
    for _ in range(ck.budget(1500, 12000)):
        n = rng.randint(4, 9)
        dens = rng.choice([0.08, 0.15, 0.25, 0.4])
        e = {(i, j) for i in range(n) for j in range(n) if i != j and rng.random() < dens and (rng.random() < 0.12 or i < j)}
        perm = rng.sample(range(n), n)
        e = {(perm[i], perm[j]) for i, j in e}
        cases.append((graph_doc(n, e, rng).text(), not cyclic(n, e), f"graph {n} {sorted(e)}", "graphN"))
    # many paths and no cycle: the decision itself must stay quick; only the verdict is asked for (an unknown language stops after it)
    for n in (20, 45, 80):
        tabs = [("structs", {"_name": f"Dia{j}", **({"a": f"[Dia{j + 1}]", "b": f"[Dia{j + 1}]"} if j + 1 < n else {"a": "byte"})}) for j in range(n)]
        rng.shuffle(tabs)
        cases.append((Doc({}, tabs).text(), True, f"{n} diamonds", "diamonds"))
        k = rng.randrange(n)
        tabs2 = [(a, dict(t)) for a, t in tabs]
        next(t for _, t in tabs2 if t["_name"] == f"Dia{n - 1}")["back"] = f"Dia{k}"
        cases.append((Doc({}, tabs2).text(), False, f"{n} diamonds closed to {k}", "diamonds"))
    d0 = common.subdir("c14")
    langs = model.ALL_LANGS
    jobs = []
    for i, (text, ok, note, kind) in enumerate(cases):
        path = os.path.join(d0, f"p{i}.toml")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        lang = langs[i % len(langs)]
        if kind == "diamonds":
            lang = "no-such-language"
        jobs.append((["--lang", lang, "--protocol", path], d0))
    rs = cli.many(jobs)

    def judge(i, r, how):
        text, ok, note, kind = cases[i]
        ck.count(f"{kind} {'accepted' if r.rc == 0 else 'rejected'}")
        ck.observe((how, text), {"case": note, "exit": r.rc, "stderr": r.err[:200]})
        det = dict(protocol_text=text[:6000], note=note, args=jobs[i][0], got=f"exit {r.rc}\nstdout {len(r.out)} bytes\nstderr {r.err[-1500:]}")
        if r.timeout:
            ck.violation(f"no decision within 20 CPU seconds ({kind})", **det)
        elif kind == "diamonds":
            decided_ok = "invalid language" in r.err
            if decided_ok != ok:
                ck.violation(f"{'valid file rejected' if ok else 'invalid file accepted'} ({kind})", **det)
        elif ok and r.rc != 0:
            ck.violation(f"valid file rejected ({kind})", **det)
        elif not ok and r.rc == 0:
            ck.violation(f"invalid file accepted ({kind})", **det)
        elif not ok and "ERROR" not in r.err:
            ck.violation(f"rejected without an error message ({kind})", **det)
        elif not ok and r.out:
            ck.violation(f"rejected, but something was output ({kind})", **det)
    for i, r in enumerate(rs):
        judge(i, r, "worker")
    # the same through separate processes
    idx = rng.sample(range(len(cases)), ck.budget(160, 800))
    for i, r in zip(idx, common.pmap(lambda i: common.beschi(jobs[i][0], cwd=d0, cpu=20, timeout=120), idx)):
        judge(i, r, "process")
    return ck.finish(800, ["valid accepted", "graph3 rejected", "graph3 accepted", "graphN accepted", "graphN rejected"])
