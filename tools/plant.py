#!/usr/bin/env python3
"""Development tool (no check uses it): try planted changes in scratch copies of /repo.

  plant.py test ID...          build, stable tests and demo with the patch; demo without it
  plant.py check ID [Cxx...]   the property's check (or the given ones) against the patched copy
Everything runs in a mount namespace in which a scratch copy is bound over /repo.
"""
import fcntl, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def ns(copy, script, timeout=1500):
    os.makedirs(copy + "/reports", exist_ok=True)
    pre = f"mount --bind {copy}/repo /repo && mount --bind {copy}/reports /opt/vp/reports && mount --bind {copy}/evidence {V}/evidence && cd /repo && "
    os.makedirs(copy + "/evidence", exist_ok=True)
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", pre + script], capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def copy_repo(patch=None):
    d = tempfile.mkdtemp(prefix="plant")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    if patch:
        r = subprocess.run(["git", "-C", d + "/repo", "apply", patch], capture_output=True, text=True)
        if r.returncode:
            shutil.rmtree(d)
            raise RuntimeError("patch does not apply: " + r.stderr)
    return d


def demo_dir(i, d):
    shutil.copytree(f"{S}/{i}", d + "/demo")
    for f in ("patch.diff", "meta.json"):
        os.remove(d + "/demo/" + f)
    return d + "/demo/demo.sh"


def test(i, full=True):
    out = []
    d = copy_repo(f"{S}/{i}/patch.diff")
    try:
        dm = demo_dir(i, d)
        rc, o = ns(d, "bash /opt/vp/build.sh")
        out.append(f"build rc={rc}" + ("" if rc == 0 else o[-800:]))
        rc, o = ns(d, f". /opt/vp/env.sh; timeout 300 bash {dm}")
        out.append(f"demo with patch rc={rc} ({o.strip().splitlines()[-1][:200] if o.strip() else ''})")
        ok = rc not in (0, 124)
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
        rc, o = ns(d, f". /opt/vp/env.sh; timeout 300 bash {dm}")
        out.append(f"demo without rc={rc}" + ("" if rc == 0 else o[-1500:]))
        ok = ok and rc == 0
        if full and ok:
            subprocess.run(["git", "-C", d + "/repo", "apply", f"{S}/{i}/patch.diff"], check=True)
            rc, o = ns(d, f"bash /opt/vp/test.sh {d}/t.json")
            t = json.load(open(d + "/t.json"))
            lost = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(t["passed"]))
            out.append(f"tests lost {len(lost)} {lost[:3]}")
            ok = ok and not lost
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return f"{'GOOD' if ok else 'BAD '} {i}: " + "; ".join(out)


def note(i, p, hit):
    f = f"{V}/tools/caught.json"
    with open(f, "a+") as fh:
        fcntl.flock(fh, fcntl.LOCK_EX)
        fh.seek(0)
        t = fh.read()
        d = json.loads(t) if t else {}
        d[i] = sorted(set(d.get(i, [])) - {p} | ({p} if hit else set()))
        fh.truncate(0)
        json.dump(d, fh, indent=1, sort_keys=True)


def check(i, props=None):
    m = json.load(open(f"{S}/{i}/meta.json"))
    d = copy_repo(f"{S}/{i}/patch.diff")
    res = []
    try:
        for p in props or [m["property"]]:
            rc, o = ns(d, f"cd {V} && export PATH=/opt/venv/bin:$PATH VERIF_SEED=${{VERIF_SEED:-1}} VERIF_TIER=${{VERIF_TIER:-quick}}; timeout 900 python3 run.py {p}")
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            first = next((o.splitlines()[k + 1].strip() for k, l in enumerate(o.splitlines()) if l.startswith("VIOLATION") and k + 1 < len(o.splitlines())), "")
            note(i, p, rc == 1 and bool(v))
            res.append(f"{p}: rc={rc} {'caught' if rc == 1 and v else 'MISSED' if rc == 0 else 'NO ANSWER ' + o[-400:]} {first[:140]}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return f"{i} [{m['property']}] " + " | ".join(res)


if __name__ == "__main__":
    what, args = sys.argv[1], sys.argv[2:]
    ids = [a for a in args if not (a[0] == "C" and a[1:].isdigit())] or sorted(os.listdir(S))
    props = [a for a in args if a[0] == "C" and a[1:].isdigit()] or None
    f = {"test": lambda i: test(i), "demo": lambda i: test(i, False), "check": lambda i: check(i, props)}[what]
    with cf.ThreadPoolExecutor({"test": 3, "demo": 3, "check": 2}[what]) as ex:
        for fu in [ex.submit(lambda i=i: (f(i))) for i in ids]:
            try:
                print(fu.result(), flush=True)
            except Exception as e:
                print("FAILED", repr(e)[:600], flush=True)
