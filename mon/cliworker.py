"""Runs the real command (beschi.cli.main) many times inside one process.  Started with python -m style by
mon/cli.py; imports beschi from PYTHONPATH.  One JSON request per line, one JSON answer per line:
{"argv": [...], "cwd": "...", "limit": seconds} -> {"rc": n, "out": "...", "err": "...", "hang": bool}"""
import io, json, os, signal, sys, traceback


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang()


def main():
    real_in, real_out = sys.stdin, sys.stdout
    signal.signal(signal.SIGVTALRM, on_alarm)
    from beschi import cli
    for line in real_in:
        q = json.loads(line)
        os.chdir(q["cwd"])
        ob, eb = io.BytesIO(), io.BytesIO()
        sys.stdout = io.TextIOWrapper(ob, encoding="utf-8", write_through=True)
        sys.stderr = io.TextIOWrapper(eb, encoding="utf-8", errors="backslashreplace", write_through=True)
        sys.argv = ["beschi"] + q["argv"]
        rc, hang = 0, False
        signal.setitimer(signal.ITIMER_VIRTUAL, q.get("limit", 20))
        try:
            cli.main()
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except Hang:
            rc, hang = -1, True
        except BaseException:
            traceback.print_exc()
            rc = 1
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = real_out, sys.__stderr__
        so.flush()
        se.flush()
        real_out.write(json.dumps({"rc": rc, "hang": hang, "out": ob.getvalue().decode("utf-8", "replace"), "err": eb.getvalue().decode("utf-8", "replace")[-4000:]}) + "\n")
        real_out.flush()


main()
