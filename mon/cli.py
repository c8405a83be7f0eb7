"""Access to the real command: one process per run, or many runs in one worker process."""
import json, os, subprocess, threading
from . import common
from .common import R


class Worker:
    def __init__(self, env=None):
        e = common.base_env()
        e.update(env or {})
        self.p = subprocess.Popen([common.python_exe(), os.path.join(common.VERIF, "mon", "cliworker.py")], cwd=common.subdir("cliw"), env=e, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)

    def ask(self, argv, cwd=None, limit=20):
        self.p.stdin.write((json.dumps({"argv": list(argv), "cwd": cwd or common.scratch(), "limit": limit}) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("command worker died")
        j = json.loads(line)
        r = R(j["rc"], j["out"], j["err"], j["hang"])
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()


def many(jobs, n=common.NCPU, limit=20):
    """jobs: list of (argv, cwd). Spread over n workers, results in order."""
    out = [None] * len(jobs)

    def go(w):
        wk = Worker()
        try:
            for i in range(w, len(jobs), n):
                out[i] = wk.ask(jobs[i][0], jobs[i][1], limit)
        finally:
            wk.close()
    common.pmap(go, range(min(n, max(1, len(jobs)))))
    return out


# ---------------------------------------------------------------- TOML text of arbitrary (also wrong) data

def tstr(s):
    out = '"'
    for c in s:
        o = ord(c)
        if c in '"\\':
            out += "\\" + c
        elif o < 32 or o == 127:
            out += "\\u%04x" % o
        else:
            out += c
    return out + '"'


def tkey(k):
    import re
    return k if re.fullmatch(r"[A-Za-z0-9_-]+", k) else tstr(k)


class Raw(str):
    """TOML text used as is"""


def tval(v):
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return tstr(v)
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{tkey(k)} = {tval(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(tval(x) for x in v) + "]"
    raise TypeError(v)


class Doc:
    """a protocol file as editable data: meta is a dict, tables is a list of (kind, dict)"""
    def __init__(self, meta, tables):
        self.meta, self.tables = meta, tables
        self.head = ""

    @staticmethod
    def of(p):
        meta = {}
        if p.ns is not None:
            meta["namespace"] = p.ns
        if p.lst_decl:
            meta["list_size_type"] = p.lst_decl
        if p.sst_decl:
            meta["string_size_type"] = p.sst_decl
        secs = {"enums": [], "structs": [], "messages": []}
        for e in p.enums.values():
            secs["enums"].append(("enums", {"_name": e.name, "_values": [{"_name": n, "_value": v} for n, v in e.values] if e.explicit else [n for n, _ in e.values]}))
        for kind, d in (("structs", p.structs), ("messages", p.messages)):
            for s in d.values():
                t = {"_name": s.name}
                for m in s.members:
                    t[m.name] = f"[{m.type}]" if m.is_list else m.type
                secs[kind].append((kind, t))
        tabs = []
        for sec in p.order or ("enums", "structs", "messages"):
            tabs += secs[sec]
        return Doc(meta, tabs)

    def text(self):
        out = [self.head] if self.head else []
        if self.meta:
            out.append("[meta]")
            out += [f"{tkey(k)} = {tval(v)}" for k, v in self.meta.items()]
            out.append("")
        for kind, t in self.tables:
            out.append(f"[[{kind}]]")
            out += [f"{tkey(k)} = {tval(v)}" for k, v in t.items()]
            out.append("")
        return "\n".join(out) + "\n"

    def pick(self, rng, *kinds):
        c = [t for k, t in self.tables if k in kinds]
        return rng.choice(c) if c else None
