"""seed(id, property, needs, breaks, [(file, old, new)], demo): a planted bug, kept in /verif/seeded
only once it has been confirmed in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, "harness")
ROOT = "8008276"

PRE = '''import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import fs_shim
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import logging, warnings
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
import world
from world import *

'''
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
exec timeout 200 $PY -B "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def seed(id, prop, needs, breaks, edits, demo):
    d = os.path.join(VERIF, "seeded", id)
    work = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(work, "repo")
        sh(f"cp -a /repo {r}", "/")
        for f, old, new in edits:
            p = os.path.join(r, "src/fedservice", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "NOT FOUND ONCE", f, s.count(old)); return False
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", r).stdout
        # lines of the original only
        for f, old, new in edits:
            bl = sh(f"git blame -s HEAD -- src/fedservice/{f}", r).stdout.splitlines()
            cur = open(os.path.join("/repo/src/fedservice", f)).read()
            start = cur[:cur.index(old)].count("\n")
            a, b = old.splitlines(), new.splitlines()
            for i, line in enumerate(a):
                if line not in b and not bl[start + i].lstrip("^").startswith(ROOT):
                    print(id, "NOTE not an original line:", line)
        dd = os.path.join(work, "demo")
        os.makedirs(dd)
        open(os.path.join(dd, "demo.py"), "w").write(PRE + demo.strip("\n") + "\n")
        open(os.path.join(dd, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(dd, "demo.sh"), 0o755)
        shutil.copy(os.path.join(HARN, "shim/fs_shim.py"), dd)
        shutil.copy(os.path.join(HARN, "world.py"), dd)
        if "applib" in demo:
            shutil.copy(os.path.join(HARN, "props/applib.py"), dd)
        good = sh(f"bash {dd}/demo.sh", "/repo")
        bad = sh(f"bash {dd}/demo.sh", r)
        td = os.path.join(work, "t")
        os.makedirs(td)
        sh(f"cp -r {r}/tests {td}/tests && rm -f {td}/tests/__init__.py", "/")
        t = sh(f"PYTHONPATH={r}/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x tests/test_05_constraints.py tests/test_08_trust_mark_file_db.py -p no:cacheprovider --rootdir={td} 2>&1 | tail -3", td).stdout
        ok = good.returncode == 0 and bad.returncode not in (0, 124) and "20 passed" in t
        if not ok:
            print(id, "REJECTED good", good.returncode, good.stdout[-500:], "bad", bad.returncode, bad.stdout[-300:], t)
            return False
        print(id, "kept:", bad.stdout.strip().splitlines()[-1][:150] if bad.stdout.strip() else "")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(dd, d, ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        return True
    finally:
        shutil.rmtree(work, ignore_errors=True)
