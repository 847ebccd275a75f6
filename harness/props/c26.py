"""C26 what is published from, and configured in, files"""
import json
import os
import shutil
import tempfile
from urllib.parse import quote_plus

import world
from world import BASE
from world import CLOCK

LEVEL = "model_checking"
HOST = {"a": "a.example.org", "b": "b.example.org", "c": "c.example.org", "h": "https.example.org"}
URL = {**{k: "https://" + v for k, v in HOST.items()}, "q": "https://q.example.org/t/1", "r": "https://a.example.org/x"}
DIR = {k: HOST.get(k) or quote_plus(URL[k]) for k in URL}
NAME = {v: k for k, v in URL.items()}
FILES = (("md", "metadata"), ("pol", "policy"), ("con", "constraints"))
PRIVATE = {"d", "p", "q", "dp", "dq", "qi", "k", "oth"}


def a_key(n):
    if n.startswith("o"):
        return {"kty": "oct", "kid": n, "k": world.b64((n * 32)[:32].encode()), "use": "sig"}
    return world.key(n).serialize(private=True)


def kind(n):
    return "oct" if n.startswith("o") else "rsa" if n.endswith("-rsa") else "ec"


CONTENT = {"md": lambda x: {"federation_entity": {"organization_name": x}}, "pol": lambda x: {"openid_relying_party": {"contacts": {"add": [x]}}},
           "con": lambda x: {"max_path_length": int(x)}}
READ = {"md": lambda v: v["federation_entity"]["organization_name"], "pol": lambda v: v["openid_relying_party"]["contacts"]["add"][0],
        "con": lambda v: str(v["max_path_length"])}
CLAIM = {"md": "metadata", "pol": "metadata_policy", "con": "constraints"}


def write(root, i, s, d):
    p = os.path.join(root, DIR[i], DIR[s])
    shutil.rmtree(p, ignore_errors=True)
    os.makedirs(p)

    def put(f, x):
        with open(os.path.join(p, f + ".json"), "w") as fp:
            json.dump(x, fp)
    if d["keys"]:
        put("jwks", {"keys": [a_key(k["id"]) for k in d["keys"]]})
    for k, f in FILES:
        if d[k]:
            put(f, CONTENT[k](d[k]))
    if d["hints"]:
        put("authority", [URL[h] for h in d["hints"]])


def read(tok):
    from cryptojwt.jws.jws import factory
    j = factory(tok)
    p = j.jwt.payload()
    by = ""
    for n in ALL:
        if n == j.jwt.headers.get("kid") and kind(n) != "oct":
            try:
                factory(tok).verify_compact(keys=[world.key(n)])
                by = n
            except Exception:
                pass
    keys = p.get("jwks", {}).get("keys", [])
    o = {"ok": True, "iss": NAME.get(p["iss"], p["iss"]), "sub": NAME.get(p["sub"], p["sub"]), "keys": sorted(k["kid"] for k in keys),
         "by": by, "secret": any(PRIVATE & set(k) for k in keys), "iat": p["iat"] - CLOCK.now - BASE, "life": p["exp"] - p["iat"],
         "hints": [NAME.get(h, h) for h in p.get("authority_hints", [])],
         "other": sorted(set(p) - {"iss", "sub", "jwks", "iat", "exp", "authority_hints", "metadata", "metadata_policy", "constraints"})}
    for k, c in CLAIM.items():
        o[k] = READ[k](p[c]) if c in p else ""
    return o


NOTHING = {"ok": False, "iss": "", "sub": "", "keys": [], "by": "", "secret": False, "iat": 0, "life": 0, "hints": [], "other": [],
           "md": "", "pol": "", "con": ""}
ALL = ["a1-rsa", "b1-rsa", "c1-rsa", "h1-rsa", "a2-rsa", "b2-rsa", "q1-rsa", "r1-rsa", "e1", "e2", "e3", "o1", "o2"]


def plain(v):
    """A tree as Python values"""
    if v["t"] == "dict":
        return {x["k"]: plain(x["v"]) for x in v["v"]}
    if v["t"] == "list":
        return [plain(x) for x in v["v"]]
    if v["t"] == "none":
        return None
    return v["v"]


def tree(x):
    if x is None:
        return {"t": "none"}
    if isinstance(x, dict):
        return {"t": "dict", "v": [{"k": k, "v": tree(v)} for k, v in sorted(x.items())]}
    if isinstance(x, (list, tuple)):
        return {"t": "list", "v": [tree(v) for v in x]}
    return {"t": "bool" if isinstance(x, bool) else "num" if isinstance(x, int) else "str", "v": x}


def run_case(case):
    from fedservice.fetch_entity_statement.fs2 import FSFetchEntityStatement
    from fedservice.fetch_entity_statement.fs2 import FSPublisher
    from fedservice.utils import load_values_from_file
    CLOCK.install(0)
    root = tempfile.mkdtemp(prefix="c26-")
    try:
        steps, objs, dropped = [], {}, {}
        publisher = FSPublisher(root)
        for s in case["steps"]:
            s = dict(s)
            op = s["op"]
            if op == "write":
                write(root, s["i"], s["s"], s["dir"])
            elif op == "drop":
                shutil.rmtree(os.path.join(root, DIR[s["i"]], DIR[s["s"]]), ignore_errors=True)
                dropped = {o: True for o in dropped}
            elif op == "tick":
                CLOCK.now += s["d"]
                continue
            elif op == "publish":
                url = URL[s["i"]] + (world.WELL_KNOWN if s["i"] == s["s"] and s["how"] else f"/fetch?sub={quote_plus(URL[s['s']])}")
                res, err = world.outcome(publisher, "GET", url)
                s["obs"] = read(res.text) if err is None and res is not None and res.status_code == 200 else dict(NOTHING)
                s["err"] = err or ""
            elif op == "new":
                def go():
                    if s["how"] == "now":
                        return FSFetchEntityStatement(root, iss=DIR[s["i"]])
                    f = FSFetchEntityStatement(root)
                    f.iss = DIR[s["i"]]
                    return f
                objs[s["o"]], err = world.outcome(go)
                if err:
                    objs.pop(s["o"])
                    continue
                dropped[s["o"]] = False
            elif op == "create":
                if s["o"] not in objs:
                    continue
                kw = {}
                if s["life"]:
                    kw["lifetime"] = s["life"]
                if s["md"]:
                    kw["metadata"] = CONTENT["md"](s["md"])
                res, err = world.outcome(objs[s["o"]].create_entity_statement, DIR[s["s"]], **kw)
                s["obs"] = read(res) if err is None and res else dict(NOTHING)
                s["fresh"] = not dropped[s["o"]]
                s["err"] = err or ""
            elif op == "load":
                for n, v in s["files"].items():
                    with open(os.path.join(root, n), "w") as fp:
                        fp.write(json.dumps(plain(v)) if n.endswith(".json") else plain(v))
                full = {n: "file:" + os.path.join(root, n) for n in (*s["files"], "gone.json", "gone.py")}

                def real(v):
                    if v["t"] == "file":
                        return full[v["v"]]
                    if v["t"] == "dict":
                        return {x["k"]: real(x["v"]) for x in v["v"]}
                    return [real(x) for x in v["v"]] if v["t"] == "list" else v["v"]
                res, err = world.outcome(load_values_from_file, real(s["tree"]))
                s["obs"] = {"t": "raised"} if err else tree(res)
                s["has"] = s.pop("files") or {"-": {"t": "none"}}
            steps.append(s)
        return {"steps": steps}
    finally:
        CLOCK.uninstall()
        shutil.rmtree(root, ignore_errors=True)


def rand_dir(rng, i, s):
    mine = [k for k in ALL if k.startswith(s)] + ["e1", "e2", "e3", "o1", "o2"]
    keys = rng.sample(mine, rng.randint(0 if rng.random() < 0.1 else 1, min(3, len(mine))))
    if i == s and rng.random() < 0.9 and not any(k.endswith("-rsa") for k in keys):
        keys.append(mine[0])
    return {"keys": [{"id": k, "kind": kind(k)} for k in keys], "md": rng.choice(["", "m1", "m2"]), "pol": rng.choice(["", "p1"]),
            "con": rng.choice(["", "0", "2"]), "hints": rng.sample("abc", rng.randint(0, 2))}


def rand_tree(rng, depth, files):
    r = rng.random()
    if depth and r < 0.3:
        return {"t": "dict", "v": [{"k": k, "v": rand_tree(rng, depth - 1, files)} for k in sorted(rng.sample("xyzuvw", rng.randint(0, 3)))]}
    if depth and r < 0.5:
        # lists of dictionaries and values
        items = [rand_tree(rng, depth - 1, files) for _ in range(rng.randint(0, 3))]
        return {"t": "list", "v": [i for i in items if i["t"] != "list"]}
    if r < 0.75:
        return {"t": "file", "v": rng.choice(files)}
    return rng.choice([{"t": "str", "v": "text"}, {"t": "num", "v": 7}, {"t": "bool", "v": True}, {"t": "str", "v": "profile:x.json"}, {"t": "str", "v": ""}])


def rand_case(rng):
    steps, objs = [], []
    if rng.random() < 0.25:
        for _ in range(3):
            files = {"one.json": {"t": "dict", "v": [{"k": "a", "v": {"t": "num", "v": rng.randrange(5)}}]},
                     "two.json": {"t": "list", "v": [{"t": "str", "v": "s"}]}, "code.py": {"t": "str", "v": f"x = {rng.randrange(9)}"},
                     "odd.txt": {"t": "str", "v": "?"}}
            names = ["one.json", "two.json", "code.py", "gone.json", "gone.py"] + (["odd.txt"] if rng.random() < 0.1 else [])
            t = {"t": "dict", "v": [{"k": k, "v": rand_tree(rng, 3, names)} for k in sorted(rng.sample("abcdef", rng.randint(1, 4)))]}
            steps.append({"op": "load", "files": files, "tree": t, "bad": "odd.txt" in json.dumps(t)})
        return {"steps": steps}
    ids = [*rng.sample("abch", 3), "q"]
    subs = [*ids, "r"]
    for i in ids:
        if rng.random() < 0.9:
            steps.append({"op": "write", "i": i, "s": i, "dir": rand_dir(rng, i, i)})
        for s in rng.sample(subs, 3):
            if s != i:
                steps.append({"op": "write", "i": i, "s": s, "dir": rand_dir(rng, i, s)})
    for _ in range(rng.randint(5, 16)):
        r = rng.random()
        i, s = rng.choice(ids), rng.choice(subs)
        if r < 0.12:
            steps.append({"op": "write", "i": i, "s": s, "dir": rand_dir(rng, i, s)})
        elif r < 0.16:
            steps.append({"op": "drop", "i": i, "s": s})
        elif r < 0.2:
            steps.append({"op": "tick", "d": rng.choice([1, 1000, 100000])})
        elif r < 0.55:
            if rng.random() < 0.3:
                s = i
            if i == "q":
                continue
            steps.append({"op": "publish", "i": i, "s": s, "how": rng.randrange(4), "life": 0, "md": ""})
        elif r < 0.7 or not objs:
            objs.append(f"o{len(objs)}")
            steps.append({"op": "new", "o": objs[-1], "i": i, "how": rng.choice(["now", "now", "late"])})
        else:
            steps.append({"op": "create", "o": rng.choice(objs), "s": s, "life": rng.choice([0, 0, 60, 7200]), "md": rng.choice(["", "", "g1"])})
    return {"steps": steps}


def run(ctx):
    ctx.model_check("FilesMC", "FilesQuick.cfg" if ctx.quick else "FilesThorough.cfg")
    for k in ALL:
        if kind(k) != "oct":
            world.key(k)
    pairs = ctx.execute(run_case, [rand_case(ctx.rng) for _ in range(600 if ctx.quick else 20000)])
    ctx.judge("FilesTrace", pairs)
    ctx.count("steps", [s["op"] for p in pairs for s in p[1]["steps"]])
    ctx.count("statements", [f"{s['op']} {s['obs']['ok']}" for p in pairs for s in p[1]["steps"] if "ok" in s.get("obs", {})])


def replay(ctx, case):
    ctx.judge("FilesTrace", ctx.execute(run_case, [case]))
