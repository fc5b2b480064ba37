"""mexec.py PID SCENARIOS OUT: recordings (texts) of scenarios on BET_REPO; one line each, 'fail' where not recordable."""
import contextlib, importlib, io, json, os, signal, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from harness import core
pid, sc, out = sys.argv[1:4]
mod = importlib.import_module("props." + pid.lower())
core.prepare(getattr(mod, "MPI", "sim"))


class TO(Exception):
    pass


def alarm(*a):
    raise TO()


signal.signal(signal.SIGALRM, alarm)
with open(out, "w") as f:
    for line in open(sc):
        s = json.loads(line)
        signal.alarm(20)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                tr = mod.execute(s)
            t = json.dumps({"ev": tr["ev"], "init": tr.get("init", {})}, allow_nan=False)
        except TO:
            t = json.dumps("fail timeout")
        except Exception as e:
            t = json.dumps("fail " + type(e).__name__)
        signal.alarm(0)
        f.write(t + "\n")
        f.flush()
