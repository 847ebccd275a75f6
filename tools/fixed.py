"""Writes the fixed entries of known_findings.json: fix commits of /repo and the property each belongs to"""
import json
import os
import subprocess

WHICH = """9144019 C02
08c8c83 C01
28feb3d C01
a3d9c28 C01
569b3e5 C05
a48f4a5 C25
8cf999e C03
7143010 C20
63419f9 C03
c594140 C03
d4f69da C04
d3c1617 C04
074038a C06
33be869 C06
662e582 C23
6821a5a C11
e30ca05 C11
f9bc9a1 C11
c43722a C13
fb43f33 C13
11cf977 C08
866eced C09
327cc9e C07
96a3392 C09
0e1019a C15
db315de C16
95707db C10
f24b1ab C10
bbb4be9 C19
ed211f9 C18
55c82bb C18
a759213 C20
c6d2e18 C14
018c495 C14
99a58ac C21
497ec7d C05
45b565e C07
44119c0 C11
60df82f C15
6a87360 C16
ad01df8 C17
ba61491 C17
5c5fa58 C10
b0d8d54 C18
8b1ad8e C19
f583713 C19
91f9abd C19
afd96d3 C19
75b7d1b C19
77c6027 C18
e59269e C20
fb2a977 C21
6c6df95 C21
2692fa7 C21
094b803 C22
aef2b35 C22
fff3c1b C23
96acf51 C23
61e8a13 C22
cb9c0bc C22
23c74ed C23"""

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(path))
log = dict(l.split(" ", 1) for l in subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%h %s", "8008276..HEAD"], capture_output=True, text=True).stdout.splitlines())
extra = os.path.join(os.path.dirname(path), "tools", "fixed_more.txt")
which = WHICH.splitlines() + (open(extra).read().splitlines() if os.path.exists(extra) else [])
d["fixed"] = []
for w in which:
    c, p = w.split()
    d["fixed"].append(f"fixed: property={p} {c} {log.pop(c)[len('fix: '):]}")
json.dump(d, open(path, "w"), indent=1)
print("not listed:", log)
