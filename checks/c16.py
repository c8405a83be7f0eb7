"""C16: the generated source depends on the protocol's content and the options only."""
import hashlib, os, shutil
from mon import harness as H, model, common, cli
from checks import c14
from checks.c15 import OPTION_SETS, LANG_OPTS, COMMENTS

# a start-up module that moves the clock, shuffles directory listings and changes what the process knows about itself
SITE = '''
import os, sys, time, random, datetime, socket, getpass, platform, uuid
_off = float(os.environ.get("MON_CLOCK", "0"))
_t, _tn, _l, _g = time.time, time.time_ns, time.localtime, time.gmtime
time.time = lambda: _t() + _off
time.time_ns = lambda: _tn() + int(_off * 1e9)
time.localtime = lambda s=None: _l(_t() + _off if s is None else s)
time.gmtime = lambda s=None: _g(_t() + _off if s is None else s)
_s, _c, _a = time.strftime, time.ctime, time.asctime
time.strftime = lambda f, t=None: _s(f, time.localtime() if t is None else t)
time.ctime = lambda s=None: _c(_t() + _off if s is None else s)
time.asctime = lambda t=None: _a(time.localtime() if t is None else t)
class _DT(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_t() + _off, tz)
    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(_t() + _off)
    @classmethod
    def today(cls):
        return cls.fromtimestamp(_t() + _off)
class _D(datetime.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(_t() + _off)
datetime.datetime, datetime.date = _DT, _D
_h = os.environ.get("MON_HOST")
if _h:
    socket.gethostname = lambda: _h
    platform.node = lambda: _h
    getpass.getuser = lambda: _h
    _ld = os.listdir
    os.listdir = lambda p=".": sorted(_ld(p), reverse=True)
'''


def main():
    ck = H.Check("C16", rule="a case is one generation of one protocol in one language with one set of options, in one environment (hash seed, locale, directory, file name and time, clock moved by "
                 "years, host and user name, output destination) or at one point of a history (after other protocols, languages and rejected files in the same process, in random order); its "
                 "bytes are compared with a plain run's; distinct by protocol, language, options and environment")
    rng = ck.rng
    root = common.subdir("c16")
    site = common.subdir("c16site")
    open(os.path.join(site, "sitecustomize.py"), "w").write(SITE)
    subj = []
    for i in range(ck.budget(26, 120)):
        d, _ = c14.valid(rng, i)
        d.head = "# " + rng.choice(COMMENTS)
        if i % 3 == 0:
            d.meta["namespace"] = rng.choice(["Ns", "deep_name", "appMessages", "X"])
        path = os.path.join(root, f"p{i}", f"proto{i}.toml")
        os.makedirs(os.path.dirname(path))
        with open(path, "w", encoding="utf-8") as f:
            f.write(d.text())
        for lang in (model.ALL_LANGS if ck.thorough else rng.sample(model.ALL_LANGS, 5)):
            opts = list(rng.choice(OPTION_SETS)) + (LANG_OPTS.get(lang, []) if rng.random() < 0.4 else [])
            subj.append((path, lang, opts, d.text()))
    base = common.pmap(lambda s: common.beschi(["--lang", s[1], "--protocol", s[0]] + s[2], cwd=root, text=False), subj)
    base_h = []
    for s, r in zip(subj, base):
        base_h.append(r.out)
        if r.rc != 0:
            ck.violation("a valid protocol was not generated", lang=s[1], args=s[2], protocol_text=s[3], got=r.err.decode("utf-8", "replace")[-1500:])

    def compare(i, out, how, n=0):
        ck.count(how)
        ck.observe((subj[i][3], subj[i][1], tuple(subj[i][2]), how, n), {"lang": subj[i][1], "options": subj[i][2], "how": how, "sha1": hashlib.sha1(out).hexdigest(), "bytes": len(out)})
        if out.rstrip(b"\n") != base_h[i].rstrip(b"\n"):
            a, b = base_h[i].split(b"\n"), out.split(b"\n")
            k = next((n for n, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            ck.violation(f"output differs: {how}", lang=subj[i][1], args=subj[i][2], protocol_text=subj[i][3],
                         got=f"first difference in line {k + 1}:\nplain: {a[k:k + 2]!r}\nthis:  {b[k:k + 2]!r}")
    # environments
    other = common.subdir("c16", "elsewhere", "deep")

    def variants(s):
        path, lang, opts, _ = s
        yield "hash seed 1", {"PYTHONHASHSEED": "1"}, root, path, None
        yield "hash seed random", {"PYTHONHASHSEED": "random"}, other, path, None
        yield "locale C", {"LANG": "C", "LC_ALL": "C", "PYTHONHASHSEED": "3"}, root, path, None
        yield "locale POSIX without UTF-8 mode", {"LANG": "", "LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONHASHSEED": "17"}, root, path, None
        yield "relative path", {"PYTHONHASHSEED": "4"}, os.path.dirname(path), os.path.basename(path), None
        yield "another file name and date", {"PYTHONHASHSEED": "5"}, other, "@copy", None
        yield "another date and host", {"MON_CLOCK": str(rng.choice([86400 * 400, -86400 * 800, 3600 * 7])), "MON_HOST": "elsewhere", "TZ": "Pacific/Auckland", "USER": "someone", "LOGNAME": "someone",
                                        "HOSTNAME": "elsewhere", "PYTHONPATH": site + ":" + common.REPO}, root, path, None
        yield "to a file", {"COLUMNS": "40"}, other, path, "out.x"
        yield "optimised python", {"PYTHONOPTIMIZE": "2", "PYTHONHASHSEED": "6"}, root, path, None

    def envs(i):
        s = subj[i]
        res = []
        vs = list(variants(s))
        for how, env, cwd, path, outf in (vs if ck.thorough else rng_pick[i](vs)):
            if path == "@copy":
                path = os.path.join(other, f"copy-{i}.txt")
                shutil.copyfile(s[0], path)
                os.utime(path, (86400 * i, 86400 * i))
            args = ["--lang", s[1], "--protocol", path] + s[2]
            if i % 2:
                args = s[2] + ["-p", path, "-l", s[1]]
            if outf:
                o = os.path.join(other, f"o{i}.x")
                r = common.beschi(args + ["--output", o], cwd=cwd, env=env, text=False)
                out = open(o, "rb").read() if os.path.exists(o) else b""
            else:
                r = common.beschi(args, cwd=cwd, env=env, text=False)
                out = r.out
            res.append((how, out))
        return res
    picks = [rng.sample(range(9), 5) for _ in subj]
    rng_pick = [(lambda vs, pk=pk: [vs[j] for j in pk]) for pk in picks]
    for i, res in enumerate(common.pmap(envs, range(len(subj)))):
        for how, out in res:
            compare(i, out, how)
    # histories inside one process: random orders, repeats, rejected files and other languages in between
    bad = []
    for n in range(30):
        d, _ = c14.valid(rng, n)
        if c14.BREAKS[n % len(c14.BREAKS)](rng, d) is None:
            continue
        p = os.path.join(root, f"bad{n}.toml")
        open(p, "w", encoding="utf-8", newline="").write(d.text())
        bad.append(p)

    def history(h):
        w = cli.Worker({"PYTHONHASHSEED": str(h)})
        res = []
        try:
            r2 = __import__("random").Random(f"{ck.seed}-{h}")
            order = list(range(len(subj)))
            r2.shuffle(order)
            order = order[:ck.budget(90, 900)]
            order = [x for i in order for x in ([i] if r2.random() < 0.8 else [i, i])]
            for i in order:
                if r2.random() < 0.15:
                    w.ask(["--lang", r2.choice(model.ALL_LANGS), "--protocol", r2.choice(bad)], root)
                s = subj[i]
                r = w.ask(["--lang", s[1], "--protocol", s[0]] + s[2], root)
                res.append((i, r.out.encode("utf-8", "replace")))
        finally:
            w.close()
        return res
    for h, res in enumerate(common.pmap(history, range(ck.budget(8, 24)))):
        for i, out in res:
            compare(i, out, "inside a longer history", h)
    return ck.finish(400, ["inside a longer history", "hash seed random", "locale", "another"])
