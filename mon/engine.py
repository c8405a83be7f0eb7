"""Generate -> compile -> drive the generated code of one language, and record what it answers.

A driver reads one command per line and answers with exactly one line.  A process
that dies before answering is recorded as a crash of the command it was given
and restarted on the remaining ones.
"""
import os, re, subprocess
from . import common
from .common import run, subdir, limits


class BuildError(Exception):
    def __init__(self, lang, where, log):
        super().__init__(f"{lang}: {where}\n{log}")
        self.lang, self.where, self.log = lang, where, log


class Unavailable(Exception):
    """a tool that is not there: nothing is learned, and nothing is held against the code"""


class Unit:
    """an executable serving some of the protocols"""
    def __init__(self, argv, protos, env=None, cwd=None, cpu=60, mem=None):
        self.argv, self.protos, self.env, self.cwd, self.cpu, self.mem = argv, set(protos), env or {}, cwd, cpu, mem


class Built:
    def __init__(self, lang, units):
        self.lang, self.units = lang, units
        self.crash_limit = 40

    def unit_for(self, k):
        return next(u for u in self.units if k in u.protos)

    def run_unit(self, unit, cmds):
        """cmds: list of strings. returns list of replies (strings)."""
        replies = []
        rest = list(cmds)
        crashes = retries = 0
        while rest:
            data = "".join(c + "\n" for c in rest)
            r = run(unit.argv, cwd=unit.cwd, env=unit.env, stdin=data, timeout=600, preexec=limits(unit.cpu + len(rest) // 200, unit.mem))
            lines = r.out.split("\n")
            if lines and lines[-1] == "":
                lines.pop()
            got = [l[2:] for l in lines if l.startswith("> ")]
            got = got[:len(rest)]
            replies += got
            rest = rest[len(got):]
            if not rest:
                if r.rc != 0 and not r.timeout:
                    # answered everything but died at exit (e.g. leak report)
                    replies.append(f"EXIT rc={r.rc} {tail(r.err)}")
                    return replies
                break
            if len(rest) > 1 and retries < 60 and (r.timeout or r.rc in (-24, -9, 152, 137)):
                # the limits are for all of a process' commands: the one it ended in gets a process of its own
                # before it counts as hanging
                one = run(unit.argv, cwd=unit.cwd, env=unit.env, stdin=rest[0] + "\n", timeout=300, preexec=limits(unit.cpu, unit.mem))
                lone = [l[2:] for l in one.out.split("\n")[:-1] if l.startswith("> ")]
                if one.rc == 0 and len(lone) == 1:
                    replies += lone
                    rest = rest[1:]
                    retries += 1
                    continue
                r = one
            if r.timeout:
                replies.append("TIMEOUT wall")
            elif r.rc in (-24, -9, 128 + 24, 137):
                replies.append(f"HANG rc={r.rc} (CPU limit) {tail(r.err)}")
            else:
                replies.append(f"CRASH rc={r.rc} {tail(r.err)}")
            rest = rest[1:]
            crashes += 1
            if crashes >= self.crash_limit:
                replies += ["SKIPPED too many crashes"] * len(rest)
                break
        return replies

    def ask(self, cmds):
        """cmds: list of (proto index, text). Same order of replies. Sequential per unit, parallel across units."""
        groups = {}
        for i, (k, text) in enumerate(cmds):
            u = self.unit_for(k)
            groups.setdefault(id(u), (u, []))[1].append((i, k, text))
        out = [None] * len(cmds)
        self.exit_reports = []

        def go(g):
            u, lst = g
            rs = self.run_unit(u, [f"{k} {t}" for _, k, t in lst])
            if len(rs) > len(lst):
                self.exit_reports += rs[len(lst):]
            for (i, _, _), r in zip(lst, rs):
                out[i] = r
        common.pmap(go, list(groups.values()))
        return out


def tail(s, n=1500):
    s = re.sub(r"\x1b\[[0-9;]*m", "", s)
    m = re.search(r"(ERROR: \w+Sanitizer.*|runtime error:.*|WARNING: \w+Sanitizer.*)", s)
    head = (m.group(1) + " :: ") if m else ""
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", s)
    if frames:
        head += "<-".join(frames[:5]) + " :: "
    return (head + s[-n:]).replace("\n", " / ")[:n + 400]


def generate(lang, proto_text, dest, name, ext, extra=()):
    """run the real CLI; returns path of generated source."""
    os.makedirs(dest, exist_ok=True)
    tp = os.path.join(dest, name + ".toml")
    with open(tp, "w", encoding="utf-8") as f:
        f.write(proto_text)
    out = os.path.join(dest, name + ext)
    r = common.beschi(["--lang", lang, "--protocol", tp, "--output", out] + list(extra), cwd=dest, cpu=60)
    if r.rc != 0 or not os.path.exists(out):
        raise BuildError(lang, "generate", f"beschi exit {r.rc}: {r.err[-2000:]}\n{proto_text}")
    return out
