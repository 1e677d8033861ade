#!/usr/bin/env python3
"""Entry point of every check:  run.py <property> [--tier quick|thorough] [--replay FILE]

Exit codes: 0 the property held on everything explored (known findings are
reported on their own lines), 1 a violation (a VIOLATION line is printed),
2 the machinery itself failed (never to be read as a verdict on the code).
"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {
    "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "MPLCONFIGDIR": "/opt/venv/mplconfig",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "HOME": os.environ.get("HOME", "/root"),
}
if os.environ.get("VERIF_REEXEC") != "1":
    env = dict(os.environ)
    env.update(ENV)
    env.pop("PYTHONPATH", None)
    env["VERIF_REEXEC"] = "1"
    os.execve(PY, [PY, "-W", "ignore"] + [os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
# hypothesis lives in the tooling venv; it is appended so that numpy, scipy, astropy ... stay those of /opt/venv
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from vlib.harness import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())
