"""Run scenarios of the drivers on the real MPI library with one process.

stdin: JSON list of [driver module, scenario]; stdout: JSON list of texts of
what was recorded (the reference for workflows without an MPI library).
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def text(tr):
    return json.dumps(tr["ev"], sort_keys=True, allow_nan=False)


def main():
    import contextlib
    import importlib
    import io
    from harness import core
    jobs = json.load(sys.stdin)
    core.prepare("real")
    out = []
    for m, s in jobs:
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                out.append(text(importlib.import_module(m).execute(s)))
            except Exception as e:
                out.append("raised " + type(e).__name__)
    sys.__stdout__.write(json.dumps(out))


if __name__ == "__main__":
    main()
