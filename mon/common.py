"""Scratch space, subprocess handling, running the real beschi command."""
import atexit, os, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("BESCHI_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
NCPU = max(2, min(8, os.cpu_count() or 2))

_scratch = None


def scratch():
    """One scratch directory per check run, removed when the run ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="beschi-mon-", dir="/tmp")
        atexit.register(shutil.rmtree, _scratch, True)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(3))
    return _scratch


def subdir(*parts):
    d = os.path.join(scratch(), *parts)
    os.makedirs(d, exist_ok=True)
    return d


def python_exe():
    return "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def base_env():
    env = {
        "HOME": subdir("home"),
        "TMPDIR": subdir("tmp"),
        "LANG": "C.UTF-8",
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "PYTHONPATH": REPO,
        "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "GOFLAGS": "-mod=mod",
        "GOCACHE": subdir("gocache"), "GOPATH": subdir("gopath"),
        "RUSTUP_HOME": os.environ.get("RUSTUP_HOME", "/root/.rustup"),
        "CARGO_HOME": os.environ.get("CARGO_HOME", "/root/.cargo"),
        "DOTNET_CLI_TELEMETRY_OPTOUT": "1", "DOTNET_NOLOGO": "1",
        "DOTNET_SKIP_FIRST_TIME_EXPERIENCE": "1", "DOTNET_CLI_HOME": subdir("home"),
        "ZIG_GLOBAL_CACHE_DIR": subdir("zigcache"), "ZIG_LOCAL_CACHE_DIR": subdir("zigcache"),
    }
    for k in ("RUSTUP_HOME", "CARGO_HOME"):
        if not os.path.isdir(env[k]):
            env.pop(k)
            if os.environ.get(k):
                env[k] = os.environ[k]
    return env


class R:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(cmd, cwd=None, env=None, timeout=300, stdin=None, text=True, preexec=None):
    e = base_env()
    if env:
        e.update(env)
    try:
        p = subprocess.Popen(cmd, cwd=cwd or scratch(), env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=preexec)
        try:
            o, er = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
            to = False
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            o, er = p.communicate()
            to = True
    except OSError as ex:
        return R(127, "", str(ex))
    if text:
        o, er = o.decode("utf-8", "replace"), er.decode("utf-8", "replace")
    return R(p.returncode, o, er, to)


def limits(cpu=None, mem=None):
    def f():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def beschi(args, cwd=None, env=None, timeout=120, cpu=None, text=True):
    return run([python_exe(), "-m", "beschi"] + list(args), cwd=cwd or scratch(), env=env, timeout=timeout,
               preexec=limits(cpu) if cpu else None, text=text)


def pmap(fn, items, n=NCPU):
    items = list(items)
    if not items:
        return []
    with ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(fn, items))
