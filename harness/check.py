#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(PY):
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.execv(PY, [PY, "-B", os.path.abspath(__file__), *sys.argv[1:]])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))
