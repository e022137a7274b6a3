#!/usr/bin/env python3
"""Entry point of every check.

    check.py <ID> --tier quick|thorough         run the seeded search for property <ID>
    check.py --replay FILE                      re-execute one recorded failing plan
    check.py <ID> --selftest N                  determinism self-test (N seeds, twice each)

Exit 0: property held on everything explored.  Exit 1: `VIOLATION property=<id> replay=<path>`.
Exit 2: the machinery itself failed (never reported as a pass or as a violation).
"""

import os
import sys

PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONHASHSEED": os.environ.get("VERIF_HASHSEED", "0"),
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "TQDM_MONITOR_INTERVAL": "0",
}


def main() -> int:
    if any(os.environ.get(k) != v for k, v in ENV.items()) or (
        os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY)
    ):
        exe = PY if os.path.exists(PY) else sys.executable
        os.execve(exe, [exe, os.path.abspath(__file__), *sys.argv[1:]], {**os.environ, **ENV})
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from sim import core

    return core.main(sys.argv[1:])


if __name__ == "__main__":
    sys.exit(main())
