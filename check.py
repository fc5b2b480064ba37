#!/opt/venv/bin/python
"""check.py <property id>: decide one property on /repo's working tree."""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
ENV = {"MPLBACKEND": "agg", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MPLCONFIGDIR": "/tmp/betv_mpl"}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
sys.path.insert(0, ROOT)
from harness import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1]))
