#!/usr/bin/env python
"""Entry point of all checks:  run.py C01 [--replay FILE] [--jobs N]."""
import os
import sys

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
# the code under test is always imported from the working tree of /repo
sys.path.insert(0, os.path.join(os.environ.get("PTWT_REPO", "/repo"), "src"))

from mc.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
