"""C15: complete output or none, and the input is never altered."""
import os, stat
from mon import harness as H, model, common, cli
from mon.cli import Doc
from checks import c14

SENTINEL = b"previous content of the output file\n" * 3


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs:
            p = os.path.join(root, n)
            out[os.path.relpath(p, d) + "/"] = oct(os.stat(p).st_mode)
        for n in files:
            p = os.path.join(root, n)
            st = os.stat(p)
            out[os.path.relpath(p, d)] = (open(p, "rb").read(), st.st_mode, st.st_mtime_ns)
    return out


OPTION_SETS = [[], ["--indent", "\t"], ["--indent", " "], ["--namespace", "OtherName"], ["--embed-protocol"], ["--embed-protocol", "--indent", "   ", "--namespace", "Third"]]
LANG_OPTS = {"go": ["--go-no-rename"], "rust": ["--rust-no-rename"], "typescript": ["--typescript-use-namespace"]}
COMMENTS = ["plain", "日本語 🙂 ünï", "*/ int x; /*", "\"\"\" '''", "back\\slash \\", "{# STRING_SIZE_TYPE #} %s {}"]


def main():
    ck = H.Check("C15", rule="a case is one run of the real command in a fresh directory, with everything in the directory, both streams and the exit status recorded before and after: accepted "
                 "protocols to standard output, to a new, an existing and a longer existing file; every kind of rejected protocol and impossible command line or output; distinct by command "
                 "line and protocol text")
    rng = ck.rng
    jobs = []     # (kind, note, text or None, args with {P} {O}, env, prepare)

    def add(kind, note, text, args, env=None, out=None, stdout=None):
        jobs.append((kind, note, text, args, env or {}, out, stdout))
    envs = [{}, {"LANG": "C", "LC_ALL": "C"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"PYTHONIOENCODING": "ascii"}, {"PYTHONIOENCODING": "utf-16"}]
    # accepted
    for i in range(ck.budget(160, 800)):
        d, note = c14.valid(rng, i)
        d.head = "# " + rng.choice(COMMENTS)
        lang = model.ALL_LANGS[i % 8]
        opts = list(rng.choice(OPTION_SETS))
        if rng.random() < 0.4:
            opts += LANG_OPTS.get(lang, [])
        text = d.text()
        env = rng.choice(envs)
        add("accept", f"{lang} {opts} {note}", text, ["--lang", lang, "--protocol", "{P}"] + opts, env)
    # rejected
    for i in range(ck.budget(200, 1200)):
        d, _ = c14.valid(rng, i)
        fn = c14.BREAKS[i % len(c14.BREAKS)]
        note = fn(rng, d)
        if note is None:
            continue
        add("reject", note, d.text(), ["--lang", rng.choice(model.ALL_LANGS), "--protocol", "{P}"] + list(rng.choice(OPTION_SETS)), rng.choice(envs))
    ok = c14.valid(rng, 0)[0].text()
    for lang in model.ALL_LANGS:
        L = ["--lang", lang]
        add("reject", "no such protocol", ok, L + ["--protocol", "{D}/missing.toml"])
        add("reject", "protocol is a directory", ok, L + ["--protocol", "{D}"])
        add("reject", "protocol in a missing directory", ok, L + ["--protocol", "{D}/no/p.toml"])
        add("reject", "whitespace in --namespace", ok, L + ["--protocol", "{P}", "--namespace", rng.choice(["a b", " a", "a\t", "a\nb"])])
        add("reject", "not UTF-8", b"\xff\xfe" + ok.encode("utf-16-le"), L + ["--protocol", "{P}"])
        add("reject", "bytes", bytes(rng.randrange(256) for _ in range(200)), L + ["--protocol", "{P}"])
        add("reject", "cut off", ok[:ok.rindex('"')], L + ["--protocol", "{P}"])
        add("reject", "unknown option", ok, L + ["--protocol", "{P}", "--no-such-option"])
    for args, note in ([["--protocol", "{P}"], "no language"], [["--lang", "c"], "no protocol"], [[], "nothing"], [["--lang", "cobol", "--protocol", "{P}"], "unknown language"],
                       [["--lang", "C", "--protocol", "{P}"], "language in the wrong case"], [["--lang", "", "--protocol", "{P}"], "empty language"], [["--lang", "c", "--protocol", ""], "empty protocol"],
                       [["--lang"], "option without value"], [["--protocol", "{P}", "--lang", "go", "extra"], "extra argument"]):
        add("reject", note, ok, args)
    # outputs that cannot be written
    for lang in model.ALL_LANGS:
        L = ["--lang", lang, "--protocol", "{P}"]
        add("badout", "output directory missing", ok, L, out="{D}/no/such/out.x")
        add("badout", "output is a directory", ok, L, out="{D}/dir")
        add("badout", "output device full", ok, L, out="/dev/full")
        add("badout", "standard output full", ok, L, stdout="/dev/full")

    root = common.subdir("c15")

    def one(n):
        kind, note, text, args, env, out, stdout = jobs[n]
        d = os.path.join(root, f"j{n}")
        os.makedirs(os.path.join(d, "dir"))
        P = os.path.join(d, "proto.toml")
        with open(P, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
        os.chmod(P, 0o444)
        sub = lambda a: a.replace("{P}", P).replace("{D}", d)
        A = [sub(a) for a in args]
        bad = []

        def go(extra, label, expect, mine=None, so=None):
            before = snapshot(d)
            cmd = [common.python_exe(), "-m", "beschi"] + A + extra
            if so:
                r = common.run(["/bin/sh", "-c", 'exec "$@" >' + so, "sh"] + cmd, cwd=d, env=env, timeout=120, text=False)
            else:
                r = common.run(cmd, cwd=d, env=env, timeout=120, text=False)
            after = snapshot(d)
            ck.count(f"{kind} exit {'zero' if r.rc == 0 else 'nonzero'}")
            ck.observe((kind, text, tuple(args), label), {"case": note, "how": label, "args": args, "exit": r.rc, "stdout_bytes": len(r.out), "stderr": r.err.decode("utf-8", "replace")[-160:]})
            a2 = dict(after)
            new = a2.pop(mine, None) if mine else None
            b2 = dict(before)
            old = b2.pop(mine, None) if mine else None
            if a2 != b2:
                bad.append((f"{label}: other files changed: {sorted(k for k in set(a2) | set(b2) if a2.get(k) != b2.get(k))}", r))
            if expect == "ok":
                if r.rc != 0:
                    bad.append((f"{label}: exit {r.rc} on an accepted protocol", r))
            else:
                if r.rc == 0:
                    bad.append((f"{label}: exit 0 although nothing could be produced", r))
                if not r.err.strip():
                    bad.append((f"{label}: no explanation on standard error", r))
                if r.out:
                    bad.append((f"{label}: {len(r.out)} bytes on standard output in spite of failure", r))
                if mine and new != old and label != "output device full":
                    bad.append((f"{label}: the output file was changed in spite of failure", r))
            return r, new
        if kind == "accept":
            r, _ = go([], "to stdout", "ok")
            src = r.out
            r1, f1 = go(["--output", os.path.join(d, "new.x")], "to new file", "ok", "new.x")
            with open(os.path.join(d, "old.x"), "wb") as f:
                f.write(SENTINEL)
            r2, f2 = go(["--output", os.path.join(d, "old.x")], "over a shorter file", "ok", "old.x")
            with open(os.path.join(d, "long.x"), "wb") as f:
                f.write(SENTINEL * (3 + len(src) // len(SENTINEL)))
            r3, f3 = go(["--output", "long.x"], "over a longer file", "ok", "long.x")
            for r, f, label in ((r1, f1, "new"), (r2, f2, "shorter"), (r3, f3, "longer")):
                if r.rc == 0 and r.out:
                    bad.append((f"{label}: {len(r.out)} bytes on standard output although a file was named", r))
                if f is None:
                    bad.append((f"{label}: exit {r.rc} without the file", r))
                elif f[0].rstrip(b"\n") != src.rstrip(b"\n"):
                    bad.append((f"{label}: the file differs from standard output", r))
            if len(src) < 200:
                bad.append(("standard output is not the generated source", r1))
            try:
                src.decode("utf-8")
            except UnicodeDecodeError:
                bad.append(("standard output is not UTF-8", r1))
        elif kind == "reject":
            go([], "to stdout", "fail")
            go(["--output", os.path.join(d, "new.x")], "to new file", "fail", "new.x")
            with open(os.path.join(d, "old.x"), "wb") as f:
                f.write(SENTINEL)
            go(["--output", os.path.join(d, "old.x")], "over an existing file", "fail", "old.x")
        else:
            go(["--output", sub(out)] if out else [], note, "fail", None, stdout)
        return bad
    for n, bad in enumerate(common.pmap(one, range(len(jobs)))):
        kind, note, text, args, env, out, stdout = jobs[n]
        for what, r in bad:
            ck.violation(f"{kind}: {what}", note=note, args=args, env=env, protocol_text=text if isinstance(text, str) else repr(text),
                         got=f"exit {r.rc}\nstdout {len(r.out)} bytes\nstderr {r.err.decode('utf-8', 'replace')[-1200:]}")
    return ck.finish(200, ["accept exit zero", "reject exit nonzero", "badout exit nonzero"])
