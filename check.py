"""Entry point: /opt/venv/bin/python /verif/check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.
Exit 1: violation (a line "VIOLATION property=<id> replay=<path>").
Exit 2: the harness itself failed (no verdict).
"""

from __future__ import annotations

import os
import sys
import tempfile

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

if os.environ.get("_VERIF_REEXEC") != "1":
    env = dict(os.environ)
    env["_VERIF_REEXEC"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONNOUSERSITE"] = "1"
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONWARNINGS", None)
    os.execve(PY, [PY, "-X", "utf8", *sys.argv], env)

# Never trust bytecode caches next to the sources under test: they are looked up under a
# directory that does not exist (and nothing is written, PYTHONDONTWRITEBYTECODE=1).
sys.dont_write_bytecode = True
_std_prefix = sys.pycache_prefix

sys.path[:0] = [
    HERE,
    os.path.join(REPO, "src"),
    os.path.join(REPO, "connectrpc-otel"),
    os.path.join(REPO, "protoc-gen-connectrpc"),
]
# Hypothesis (and sortedcontainers) live in the tooling venv, same CPython version.
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import hypothesis  # noqa: E402,F401  (third party: normal caches are fine)
import pyqwest  # noqa: E402,F401

sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f"verif-no-such-cache-{os.getpid()}")

from pbt.core import main  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1:] == ["--selftest"]:
        import pbt.rpc  # noqa: F401  (everything the checks need imports)

        print("ok")
        sys.exit(0)
    sys.exit(main(sys.argv[1:]))
