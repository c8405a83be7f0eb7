#!/usr/bin/env python3
"""run.py Cxx            run one check (VERIF_SEED, VERIF_TIER)
   run.py --replay FILE  show what the code answers now to a recorded violation"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def replay(path):
    from mon import common, harness, engine
    v = json.load(open(path))
    if "protocol" not in v:
        print(json.dumps(v, indent=1))
        return 0
    p = harness.proto_from(v["protocol"])
    lang, _, mode = v["label"].partition(":")
    mod = importlib.import_module("mon." + harness.MODS[lang])
    kw = {"mode": mode} if mode else {}
    b = mod.build([p], common.subdir("replay"), v.get("extra") or (), **kw)
    print(p.toml())
    print("command:", v["command"])
    print("want:   ", v.get("want"))
    print("was:    ", v["got"])
    print("now:    ", b.ask([(0, v["command"])])[0])
    if v.get("slow"):
        print("and with 16 times the data:", b.ask([(0, v["slow"])])[0])
    return 0


if __name__ == "__main__":
    from mon import harness
    if sys.argv[1] == "--replay":
        harness.main_guard(lambda: replay(sys.argv[2]))
    if sys.argv[1] == "--selftest":
        from mon import common
        r = common.beschi(["--version"])
        print(r.out, r.err)
        sys.exit(0 if r.rc == 0 else 1)
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    harness.main_guard(mod.main)
