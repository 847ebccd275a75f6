"""Nothing has to be built. See that what the checks need is there."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
JARS = ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar")


def main():
    for f in JARS + ("/opt/venv/bin/python",):
        if not os.path.exists(f):
            print("missing", f)
            return 1
    subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
    os.makedirs(os.path.join(os.path.dirname(HERE), "evidence"), exist_ok=True)
    print("ok")
    return 0


sys.exit(main())
