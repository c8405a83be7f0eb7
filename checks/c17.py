"""C17: presentation options never change what the generated code reads and writes."""
import copy, os, re
from mon import harness as H, model, ref, common
from mon.harness import Case

NASTY = ["plain words", "*/ int broken; /*", "/* opened and not closed", "closed only */", "// line", "日本語 🙂 ünïcode", "ends with a backslash \\", "\"quotes\" 'and' `ticks`", "\"\"\" '''", "{# STRING_SIZE_TYPE #}",
         "%s %d {} {0} $x ${y}", "<tag> & &amp; ]]>", "#if 0", "# nested # hash", "??/ trigraph", "\\u0041 \\n", "*\\", "/", "tab\there", "~!@#$^&*()_+", "};", "*/*/*/", "/*/*/*", "**/", "/**", "*//*",
         "a */ b */ c", "namespace { }", "// */ // /*", "x" * 300]


class Named(model.Proto):
    """a protocol whose file says something else than its generated name (the name comes from --namespace)"""
    file_ns = None
    comments = ()

    def toml(self, comments=()):
        ns, self.ns = self.ns, self.file_ns
        try:
            t = super().toml()
        finally:
            self.ns = ns
        lines = t.split("\n")
        for i, c in enumerate(self.comments):
            at = (i * 7) % (len(lines) + 1)
            # only between lines of the file proper, never inside a list of enum values
            while at < len(lines) and (lines[at].startswith("    ") or lines[at] == "]"):
                at += 1
            lines.insert(at, "# " + c)
        return "\n".join(lines)


def named(p, ns, comments=()):
    q = Named(ns, list(p.enums.values()), list(p.structs.values()), p.msgs, p.lst_decl, p.sst_decl)
    q.order, q.file_ns, q.comments = p.order, p.ns, tuple(comments)
    return q


def embedded(text, src):
    """does the source hold the protocol text in full? comment markers may have been separated, and line ends and indentation may differ"""
    squash = lambda s: re.sub(r"\s+", "", s)
    want = [squash(l) for l in text.splitlines()]
    flat = squash(src)
    pos = 0
    for l in want:
        if not l:
            continue
        i = flat.find(l, pos)
        if i < 0:
            return l
        pos = i + len(l)
    return None


def main():
    ck = H.Check("C17", rule="a case is one message, stream or packed list written or read by code generated with one set of presentation options (namespace, indentation, embedded protocol with hostile "
                 "comments, renaming off, TypeScript namespace), judged by the same reference as code generated without options; plus, per protocol, language and option set, whether it builds "
                 "and whether embedded text is there in full; distinct by options, language, protocol and value")
    rng = ck.rng
    base = H.suite(ck, ck.budget(2, 6), core=ck.budget(1, 3))
    nons = model.gen_proto(rng, None)
    variants = []
    inds = ["\t", " ", "  ", "   ", "      ", "        ", "\t\t", " \t"]
    rng.shuffle(inds)
    nss = ["OtherName", "snake_case_name", "lower", "UPPER", "X", "camelCase", "Name2", "With_Mixed_Case"]
    rng.shuffle(nss)
    no_rename = {"go": ["--go-no-rename"], "rust": ["--rust-no-rename"], "typescript": ["--typescript-use-namespace"]}
    variants.append(("namespace", lambda k: nss[0], lambda k: ["--namespace", nss[0]], False, ()))
    variants.append(("indent", None, lambda k: ["--indent", inds[k % 8]], False, ()))
    variants.append(("embed", None, lambda k: ["--embed-protocol"], False, NASTY))
    variants.append(("no-rename", None, lambda k: [], True, ()))
    variants.append(("all", lambda k: nss[1], lambda k: ["--embed-protocol", "--indent", inds[(k + 3) % 8], "--namespace", nss[1]], True, NASTY))
    if ck.thorough:
        for i in range(2, 8):
            variants.append((f"all {i}", (lambda k, i=i: nss[i]), (lambda k, i=i: ["--embed-protocol", "--indent", inds[(k + i) % 8], "--namespace", nss[i]]), i % 2 == 0, NASTY))
    else:
        # two of the single options each time are enough next to "all"; every seed takes others
        drop = rng.choice([0, 1])
        variants.pop(drop)
    for vi, (vn, nsf, optf, rename_off, com) in enumerate(variants):
        ps = []
        for k, p in enumerate(base + ([nons] if nsf else [])):
            # in languages where several protocols are compiled together their names must differ
            nm = None if nsf is None else nsf(k) + (str(k) if k else "")
            q = named(p, p.ns if nm is None else nm, rng.sample(com, min(len(com), 14)) if com else ())
            q.nm = nm
            ps.append(q)

        def opts(p, lang=None):
            k = ps.index(p)
            o = []
            it = iter(optf(k))
            for a in it:
                o.append(a)
                if a == "--namespace":
                    next(it)
                    o.append(p.nm)
                elif a == "--indent":
                    o.append(next(it))
            return o
        builts = {}
        groups = {}
        for l in H.LANGS:
            ex = no_rename.get(l, []) if rename_off else []
            groups.setdefault(tuple(ex), []).append(l)
        wd = f"v{vi}"
        jobs = []
        for l in H.LANGS:
            ex = no_rename.get(l, []) if rename_off else []
            if vn == "no-rename" and not ex:
                continue
            kw = {}
            if rename_off and l in ("go", "rust"):
                kw[l] = {"rename": False}
            if rename_off and l == "typescript":
                kw[l] = {"ns": True}
            jobs.append((l, ex, kw))
        for (l, ex, kw), b in zip(jobs, common.pmap(lambda j: ck.build(ps, [j[0]], (lambda p, e=j[1]: opts(p) + e), tag=wd, **j[2]), jobs)):
            for lab, x in b.items():
                x.label = f"{lab} {vn}"
                builts[lab] = x
        # embedded text
        if com:
            for l in model.ALL_LANGS:
                for k, q in enumerate(ps):
                    d = common.subdir("emb", f"{vi}{l}{k}")
                    tp = os.path.join(d, "p.toml")
                    open(tp, "w", encoding="utf-8").write(q.toml())
                    r = common.beschi(["--lang", l, "--protocol", tp] + opts(q))
                    ck.observe(("embed", vn, l, k), {"lang": l, "options": opts(q), "embedded_bytes": len(r.out)})
                    ck.count(f"embedded {l}")
                    sep = lambda s: s.replace("*/", "* /").replace("/*", "/ *")
                    miss = embedded(q.toml(), r.out) if r.rc == 0 else "exit " + str(r.rc)
                    if miss:
                        miss = embedded(sep(q.toml()), r.out)
                        if miss:
                            miss = embedded(q.toml().replace("*/", "").replace("/*", ""), r.out.replace("* /", "").replace("/ *", "").replace("*/", "").replace("/*", ""))
                    if miss:
                        ck.violation(f"{l}: embedded protocol text is not there in full ({vn})", lang=l, args=opts(q), protocol_text=q.toml(), got=f"not found: {miss[:300]}")
        cases = []
        for k, p in enumerate(ps):
            g = model.ValueGen(rng, p)
            for mi, m in enumerate(p.msgs):
                for _ in range(ck.budget(6, 20) if m.members else 1):
                    v = g.message(mi)
                    cases.append(H.case_E(p, k, mi, v, key=(vn, "E", mi, repr(v))))
                    cases.append(H.case_D(p, k, mi, v, key=(vn, "D", mi, repr(v))))
                    e = ref.encode(p, m, v)
                    if e:
                        c = rng.randrange(len(e))
                        cases.append(Case(k, f"D {mi} 0 x{e[:c].hex()}", "ERR", key=(vn, "cut", mi, c)))
            items = [(mi, g.message(mi)) for mi in (rng.randrange(len(p.msgs)) for _ in range(4))]
            pk = ref.pack(p, items)
            cases.append(Case(k, f"P 0 {len(items)}{H.items_toks(p, items)}", f"OK {len(pk)} {len(pk)} x{pk.hex()}", key=(vn, "P")))
            cases.append(Case(k, f"U 0 x{pk.hex()}", lambda label, r, p=p, items=items: None if H.strip_pos(r) == H.strip_pos(H.list_reply(p, items, 0)) else "unpacked list differs", key=(vn, "U")))
        ck.count("option set " + vn)
        n0 = len(ck.violations)
        ck.run(builts, cases)
        for v in ck.violations[n0:]:
            v["what"] = f"[{vn}] " + v["what"]
    return ck.finish(400, [f"{l} OK" for l in H.LANGS] + ["embedded"])
