"""What every check shares: building the suites, judging replies, verdicts, evidence, replay files."""
import hashlib, importlib, json, os, random, re, sys, time, traceback
from . import common, engine, model, ref
from .engine import BuildError
from .model import Proto, Enum, Struct, Member

MODS = {"c": "lang_c", "csharp": "lang_cs", "go": "lang_go", "rust": "lang_rust", "typescript": "lang_ts", "assemblyscript": "lang_as", "zig": "lang_zig",
        "swift": "lang_swift"}
LANGS = ["c", "csharp", "go", "rust", "typescript", "assemblyscript", "zig", "swift"]
ALARM = re.compile(r"LEAK|CLOBBER|BUFFERCHANGED|DESTROYERR|PANIC|DISAGREE|CRASH|HANG|!NUL|!NULL|!TYPE|!UTF16|!CLASS|!F32|BAD|EXIT")


class Inconclusive(Exception):
    pass


def proto_json(p):
    ms = lambda s: [s.name, [[m.name, m.type, m.is_list] for m in s.members]]
    return {"ns": p.ns, "lst": p.lst_decl, "sst": p.sst_decl, "enums": [[e.name, e.values, e.explicit] for e in p.enums.values()],
            "structs": [ms(s) for s in p.structs.values()], "messages": [ms(s) for s in p.msgs], "order": p.order}


def proto_from(j):
    st = lambda a: Struct(a[0], [Member(*m) for m in a[1]])
    p = Proto(j["ns"], [Enum(n, [tuple(v) for v in vs], x) for n, vs, x in j["enums"]], [st(s) for s in j["structs"]], [st(s) for s in j["messages"]], j["lst"], j["sst"])
    p.order = j.get("order")
    return p


class Case:
    """one command and the judgement of its reply"""
    __slots__ = ("k", "text", "want", "langs", "key", "trivial")

    def __init__(self, k, text, want, langs=None, key=None, trivial=False):
        self.k, self.text, self.want, self.langs, self.key, self.trivial = k, text, want, langs, key, trivial


class Check:
    def __init__(self, pid, level="exploration", rule=""):
        self.pid, self.level, self.rule = pid, level, rule
        self.tier, self.seed = common.TIER, common.SEED
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        common.scratch()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.inconclusive = []
        self.assumptions = []
        self.kf = load_known(pid)
        self.kf_hit = {}

    # ---- counting
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def observe(self, key, sample=None, trivial=False):
        self.evals += 1
        if not trivial:
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                if sample is not None and (len(self.samples) < 4 or (len(self.samples) < 12 and len(self.distinct) % 397 == 0)):
                    self.samples.append(sample)

    def violation(self, what, **detail):
        v = dict(property=self.pid, what=what, seed=self.seed, tier=self.tier, **detail)
        for f in self.kf:
            if f.get("lang") in (None, detail.get("lang")) and re.search(f["match"], what + "\n" + str(detail.get("mechanism", "")) + "\n" + str(detail.get("got", ""))):
                self.kf_hit.setdefault(f["id"], [f, 0])[1] += 1
                return
        self.violations.append(v)

    def budget(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self, quick=60, thorough=600):
        return (thorough if self.thorough else quick) - (time.time() - self.t0)

    # ---- building
    def build(self, protos, langs=LANGS, extra=(), tag="w", **kw):
        """-> {label: Built}; a label is a language or language:mode. A language whose code does not build is a violation."""
        out = {}
        errs = []

        def one(label):
            lang, _, mode = label.partition(":")
            mod = importlib.import_module("mon." + MODS[lang])
            args = dict(kw.get(lang, {}))
            if mode:
                args["mode"] = mode
            t = time.time()
            try:
                b = mod.build(protos, common.subdir(tag + "_" + label.replace(":", "_")), extra, **args)
            except BuildError as e:
                errs.append((label, e))
                return
            except engine.Unavailable as e:
                self.count("unavailable " + label)
                self.assumptions.append(f"{label} not observed: {e}"[:400])
                return
            b.label = label
            b.protos = protos
            b.extra = extra
            b.build_s = time.time() - t
            out[label] = b
            for k, why in getattr(b, "skipped", {}).items():
                self.count("left out " + lang)
                if len(self.assumptions) < 12:
                    self.assumptions.append(f"{label}: protocol {k} left out, not something the interpreter knows: {why}"[:300])
        common.pmap(one, langs)
        for label, e in errs:
            self.violation(f"{label}: generated code cannot be built ({e.where})", lang=label.partition(":")[0], got=str(e)[:3000], mechanism="build",
                           protocols=[proto_json(p) for p in protos], extra=extra if not callable(extra) else "per protocol")
        for label in langs:
            if label in out:
                self.count("built " + label, len(protos))
        return {l: out[l] for l in langs if l in out}

    # ---- running
    def run(self, builts, cases, judge=None, batch=None):
        """ask every built language every case that applies to it; judge(label, case, reply) -> reason or None"""
        judge = judge or default_judge
        jobs = []
        for label, b in builts.items():
            lang = label.partition(":")[0]
            mine = [c for c in cases if c.langs is None or lang in c.langs or label in c.langs]
            if mine:
                jobs.append((label, b, mine))

        def go(j):
            label, b, mine = j
            return b.ask([(c.k, c.text) for c in mine]), list(b.exit_reports)
        results = common.pmap(go, jobs)
        for (label, b, mine), (replies, exits) in zip(jobs, results):
            lang = label.partition(":")[0]
            for e in exits:
                self.violation(f"{label}: process ended abnormally after its last command", lang=lang, got=e)
            for c, r in zip(mine, replies):
                if r is None or r.startswith("SKIPPED"):
                    self.count("skipped " + label)
                    if r and r.startswith("SKIPPED swift") and len(self.assumptions) < 12:
                        self.assumptions.append(r[:300])
                    continue
                if r.startswith("TIMEOUT"):
                    self.inconclusive.append(f"{label}: wall clock limit in {c.text[:120]}")
                    continue
                if re.search(r"(CRASH|PANIC).{0,600}(DRIVER: (missing token|unknown op|create|string token|enum)|driver: (missing|unknown op|hex|enum|message index|protocol|oom))", r):
                    self.inconclusive.append(f"{label}: the driver failed on {c.text[:200]}: {r[:300]}")
                    continue
                self.count(f"{label} {r.split(' ', 1)[0]}")
                self.observe((label, c.k, c.key if c.key is not None else c.text),
                             {"lang": label, "protocol": b.protos[c.k].describe()[:600], "command": c.text[:400], "reply": r[:400]}, c.trivial)
                why = judge(label, c, r)
                if why:
                    self.violation(f"{label}: {why}", lang=lang, label=label, command=c.text, got=r[:6000], want=c.want if isinstance(c.want, str) else None,
                                   protocol=proto_json(b.protos[c.k]), extra=list(b.extra(b.protos[c.k]) if callable(b.extra) else b.extra), mechanism=why)
        return results

    # ---- verdict
    def finish(self, min_evals=100, need=()):
        for n in need:
            if n.startswith("swift") and (self.counters.get("left out swift") or self.counters.get("skipped swift")):
                continue            # interpreted: what the interpreter does not know is left out, not judged
            if not any(k.startswith(n) and v > 0 for k, v in self.counters.items()) and not self.violations:
                self.inconclusive.append(f"nothing observed for '{n}'")
        wall = time.time() - self.t0
        os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule, "samples": self.samples[:12] or ["none"],
                           "observed": dict(sorted(self.counters.items()))},
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        if self.inconclusive:
            ev["coverage"]["inconclusive"] = self.inconclusive[:20]
        with open(os.path.join(common.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for i, (f, n) in self.kf_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {f['what']} ({n} observations)")
        print(f"{self.pid}: {self.evals} observations, {len(self.distinct)} distinct, {len(self.violations)} violations, {wall:.1f} s")
        if self.violations:
            seen, n = {}, 0
            for v in self.violations:
                key = re.sub(r"\d+", "#", v["what"])[:80]
                if key in seen:
                    continue
                seen[key] = 1
                n += 1
                if n > 8:
                    break
                rp = os.path.join(common.VERIF, "evidence", f"replay-{self.pid}-{n}.json")
                with open(rp, "w") as f:
                    json.dump(v, f, indent=1)
                print(f"VIOLATION property={self.pid} replay={rp}")
                print("   " + v["what"][:500])
                if v.get("command"):
                    print("   command: " + v["command"][:300])
                if v.get("want"):
                    print("   want: " + str(v["want"])[:300])
                if v.get("got"):
                    print("   got:  " + str(v["got"])[:600])
            return 1
        if self.inconclusive or self.evals < min_evals:
            print(f"INCONCLUSIVE: {self.inconclusive[:5]} evaluations={self.evals}")
            return 2
        return 0


def load_known(pid):
    path = os.path.join(common.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                j = json.loads(line)
                if j.get("property") == pid and j.get("status") == "known":
                    out.append(j)
    return out


# ---------------------------------------------------------------- judging

def strip_pos(s):
    """'OK <pos> rest' -> 'OK rest'"""
    f = s.split(" ", 2)
    return f[0] + (" " + f[2] if len(f) > 2 else "")


def default_judge(label, c, r):
    w = c.want
    if callable(w):
        return w(label, r)
    if w == "ERR":
        return None if (r == "ERR" or r.startswith("ERR ")) and not ALARM.search(r) else "expected a reported error"
    if r == w:
        return None
    if (r + " ").startswith("OK -1 ") and w.startswith("OK ") and strip_pos(r) == strip_pos(w):
        return None
    m = ALARM.search(r)
    if m:
        return f"alarm {m.group(0)}"
    if r.startswith("ERR"):
        return "reported an error on valid data"
    return "answered something else than the reference"


def alarms_only(label, c, r):
    m = ALARM.search(r)
    return f"alarm {m.group(0)}" if m else None


# ---------------------------------------------------------------- expected replies

def toks(p, mi, v):
    return "".join(" " + t for t in ref.tokens(p, p.msgs[mi], v))


def case_E(p, k, mi, v, **kw):
    e = ref.encode(p, p.msgs[mi], v)
    return Case(k, f"E {mi}{toks(p, mi, v)}", f"OK {len(e)} {len(e) + 1} {len(e)} 1 x{mi + 1:02x}{e.hex()} x{e.hex()}", **kw)


def case_V(p, k, mi, v, old, mode, **kw):
    """the message held `old`, was measured, written, packed (mode 1: was itself read from bytes), and now holds v"""
    e = ref.encode(p, p.msgs[mi], v)
    return Case(k, f"V {mi} {mode}{toks(p, mi, old)}{toks(p, mi, v)}", f"OK {len(e)} {len(e) + 1} {len(e)} 1 x{mi + 1:02x}{e.hex()} x{e.hex()}", **kw)


def case_D(p, k, mi, v, off=0, pre=b"", post=b"", op="D", **kw):
    e = ref.encode(p, p.msgs[mi], v)
    data = pre + e + post
    return Case(k, f"{op} {mi} {len(pre)} x{data.hex()}", f"OK {len(pre) + len(e)}{' 1' if op == 'I' else ''}{toks(p, mi, v)}", **kw)


def items_toks(p, items):
    return "".join(f" {mi}{toks(p, mi, v)}" for mi, v in items)


def list_reply(p, items, pos):
    return f"OK {pos} {len(items)}" + "".join(f" | {mi}{toks(p, mi, v)}" for mi, v in items)


# ---------------------------------------------------------------- suites

def size_pair(rng):
    return rng.choice(model.SIZE_TYPES), rng.choice(model.SIZE_TYPES)


def suite(ck, n, core=1, out_of_order=True, big=False, markers="byte"):
    """protocols of one run: `core` copies of the every-type-everywhere protocol, and n random ones;
    one with memberless structs, whose lists are counted by one byte unless markers is "any" (an element takes no
    bytes there, so every count a corrupted length claims is a valid one and has to be worked through)"""
    rng = ck.rng
    ps = []
    for i in range(core):
        lst, sst = (None, None) if i == 0 else size_pair(rng)
        ps.append(model.core_proto(f"Core{i}", lst, sst))
    for i in range(n):
        lst, sst = size_pair(rng) if rng.random() < 0.8 else (None, None)
        p = model.gen_proto(rng, f"Gen{i}", lst, sst, big=big, out_of_order=out_of_order and rng.random() < 0.5)
        if rng.random() < 0.3:
            p.order = rng.sample(["enums", "structs", "messages"], 3)
        ps.append(p)
    ps.append(model.twin_proto("Twin", *((None, None) if rng.random() < 0.4 else size_pair(rng)), rng=rng if out_of_order else None))
    if markers == "any":
        ps.append(model.marker_proto("Marks", *((None, None) if rng.random() < 0.4 else size_pair(rng))))
    elif markers:
        ps.append(model.marker_proto("Marks", markers, size_pair(rng)[1]))
    return ps


def main_guard(fn):
    try:
        sys.exit(fn())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("INCONCLUSIVE: the check itself failed")
        sys.exit(2)


def alarms_only_want(label, r):
    m = ALARM.search(r)
    return f"alarm {m.group(0)}" if m else None
