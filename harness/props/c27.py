"""C27 what the servers answer over HTTP"""
import copy
import importlib.util
import json
import os
import shutil
import sys
import tempfile
from urllib.parse import urlencode

import core
import world
from world import BASE
from world import CLOCK
from world import Federation

LEVEL = "model_checking"
TYPES = {"rp": "openid_relying_party", "op": "openid_provider", "fe": "federation_entity"}
TBACK = {v: k for k, v in TYPES.items()}
DIRS = {"t": "trust_anchor", "m": "trust_mark_issuer"}
FOREVER = 999999999
NAMES = ("iss", "sub", "anchor")
MARKS = ("trust_mark_id", "id")
SCRIPT = "<script>alert(1)</script>"


CLAIMS = {"trust_mark": {"iss", "sub", "id", "iat", "exp"}, "resolve": {"iss", "sub", "iat", "exp", "metadata", "trust_chain", "trust_marks", "jwks"}}
CLAIMS["fetch"] = CLAIMS["config"] = {"iss", "sub", "iat", "exp", "jwks", "metadata", "authority_hints", "intermediate"}


def url(e):
    return f"https://{e}.example.org" if e else ""


def name(u):
    return u[len("https://"):-len(".example.org")] if u.startswith("https://") and u.endswith(".example.org") else "?" + u


def tid_url(t):
    return f"https://marks.example.org/{t}"


def views(base, d):
    """The module with the views, loaded anew"""
    spec = importlib.util.spec_from_file_location(f"views_{base}_{d}", os.path.join(core.REPO, base, d, "views.py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def app_of(base, d, fe):
    from flask import Flask
    app = Flask(f"{base}_{d}")
    app.register_blueprint(views(base, d).entity)
    app.federation_entity = app.server = fe
    return app


def with_entity_id(eid, fn):
    os.environ["FEDSERVICE_ENTITYID"] = eid
    try:
        return fn()
    finally:
        del os.environ["FEDSERVICE_ENTITYID"]


def init_apps(base, root):
    """The servers the way entity.py starts them, in a scratch directory, with the configuration that is shipped"""
    shutil.copytree(os.path.join(core.REPO, base), os.path.join(root, base), ignore=shutil.ignore_patterns("private", "*.log", "__pycache__"))
    d = os.path.join(root, base)
    os.chdir(d)
    with open(os.path.join(d, DIRS["m"], "authority_hints"), "w") as fp:
        fp.write(url("t") + "\n")
    saved_path, out = list(sys.path), sys.stdout
    apps = {}
    try:
        sys.path.insert(0, d)
        sys.stdout = open(os.devnull, "w")
        for s, n in DIRS.items():
            for m in [m for m in sys.modules if m.split(".")[0] in (n, "entity")]:
                del sys.modules[m]
            spec = importlib.util.spec_from_file_location("entity_" + base, os.path.join(d, "entity.py"))
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
            apps[s] = with_entity_id(url(s), lambda: mod.init_app(n))
    finally:
        sys.stdout.close()
        sys.stdout = out
        sys.path[:] = saved_path
        for m in [m for m in sys.modules if m.split(".")[0] in (*DIRS.values(), "entity")]:
            del sys.modules[m]
    for app in apps.values():  # The files of this run
        app.root_path = os.path.join(d, app.name)
    return apps


def make_apps(w):
    from fedservice.defaults import federation_endpoints
    fes = {}
    fes["t"] = world.make_entity(url("t"), {}, endpoints=federation_endpoints("entity_configuration", "fetch", "list", "resolve"))
    fes["m"] = world.make_entity(url("m"), {}, authority_hints=[url("t")], endpoints=["entity_configuration"], trust_mark_entity={
        "class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": {
            "trust_mark_specification": {tid_url(x["tid"]): ({"lifetime": x["life"]} if x["life"] else {}) for x in w["life"]},
            "trust_mark_db": {"class": "fedservice.trust_mark_entity.SimpleDB", "kwargs": {}},
            "endpoint": {n: {"path": n, "class": f"fedservice.trust_mark_entity.server.{n}.{c}", "kwargs": {}}
                         for n, c in (("trust_mark", "TrustMark"), ("trust_mark_list", "TrustMarkList"), ("trust_mark_status", "TrustMarkStatus"))}}})
    for s, fe in fes.items():
        world.give_key(fe, world.rsa(s))
    return {s: app_of(w["base"], DIRS[s], fe) for s, fe in fes.items()}


def run_case(case):
    cwd, root = os.getcwd(), tempfile.mkdtemp(prefix="fs27-")
    try:
        CLOCK.install(0)
        return _run_case(copy.deepcopy(case), root)
    finally:
        CLOCK.uninstall()
        os.chdir(cwd)
        shutil.rmtree(root)


def _run_case(case, root):
    from cryptojwt.jws.jws import factory
    w = case["world"]
    apps = init_apps(w["base"], root) if w["start"] == "init" else make_apps(w)
    fes = {s: a.federation_entity for s, a in apps.items()}
    web = {s: a.test_client() for s, a in apps.items()}
    tme = fes["m"].trust_mark_entity if hasattr(fes["m"], "trust_mark_entity") else fes["m"].server.trust_mark_entity
    tids = {}
    for i, k in enumerate(tme.trust_mark_specification):
        tids[str(i + 1)] = k
    tback = {v: k for k, v in tids.items()}
    life = [{"tid": t, "life": tme.trust_mark_specification[u].get("lifetime", 0)} for t, u in tids.items()]
    public = {s: fe.keyjar.export_jwks() for s, fe in fes.items()}
    own = {s: sorted(k["kid"] for k in public[s]["keys"]) for s in fes}
    if w["anchored"]:
        fes["t"].function.trust_chain_collector.add_trust_anchor(url("t"), public["t"])

    ents = {}
    for e in w["ents"]:
        if e["id"] == "m":
            continue
        ents[url(e["id"])] = {"keys": list(e["keys"]), "hints": [url("t")], "leaf": True, "down": not e["up"],
                              "metadata": {TYPES[t]: {"organization_name": e["id"]} for t in e["types"]},
                              "extra": {"trust_marks": [world.sign({"id": tids.get(t, tid_url(t)), "sub": url(e["id"]), "iss": url("m"), "iat": BASE}, "z1")
                                                        for t in e["marks"]]} if e["marks"] else {}}
    fed = Federation(ents)

    def hook(method, u, body, headers):
        for s, c in web.items():
            if u == url(s) or u.startswith((url(s) + "/", url(s) + "?")):
                u = u[len(url(s)):]
                r = c.open(u if u.startswith("/") else "/" + u, method=method, data=body)
                return r.status_code, r.headers.get("Content-Type"), r.get_data(as_text=True)

    fed.hook = hook
    client = world.make_entity(url("c"), {}, services=["entity_configuration", "entity_statement", "list", "resolve", "trust_mark", "trust_mark_list",
                                                       "trust_mark_status"])
    client.function.trust_chain_collector.add_trust_anchor(url("t"), public["t"])
    client.keyjar.import_jwks(public["m"], url("m"))

    def jwks(keys):
        out = world.pub(*[k for k in keys if not k.startswith("own")])
        return {"keys": out["keys"] + (public["m"]["keys"] if "own" in keys else [])}

    def kids(d):
        return sorted({k.get("kid", "?") for k in (d or {}).get("keys", [])})

    def spell(keys):
        return sorted(k for x in keys for k in (own["m"] if x == "own" else [x]))

    def rel(x):
        return x - BASE if isinstance(x, int) else FOREVER

    def registry():
        reg = []
        sub = fes["t"].server.subordinate
        for i in list(sub.keys()):
            d = sub[i]
            reg.append({"id": name(i), "types": [TBACK.get(t, t) for t in d.get("entity_types", [])], "inter": bool(d.get("intermediate")), "keys": kids(d["jwks"])})
        marks = []
        for t, subs in tme.issued.dump().items():
            rows = [json.loads(x) for x in subs] if isinstance(subs, list) else [x for v in subs.values() for x in v]
            for x in rows:
                marks.append({"tid": tback.get(x["id"], x["id"]), "sub": name(x["sub"]), "iat": rel(x["iat"]), "exp": rel(x.get("exp"))})
        return {"reg": reg, "marks": marks}

    issued, steps = [], []

    def value(k, v):
        if v.startswith("raw:"):
            return v[4:]
        if k in NAMES:
            return url(v)
        if k in MARKS:
            return tids.get(v, tid_url(v))
        if k in ("type", "entity_type"):
            return TYPES.get(v, v)
        if k == "iat" and v != "0":
            return str(int(v) + BASE)
        if k == "trust_mark":
            return forge(v)
        return v

    def forge(v):
        """i: the i-th issued; and what others make of it"""
        n, _, how = v.partition(":")
        tok = issued[int(n) % len(issued)] if issued else None
        if tok is None:
            return "nothing"
        p = factory(tok).jwt.payload()
        if how == "key":
            return world.sign(p, "z1", kid=factory(tok).jwt.headers.get("kid"))
        if how == "sub":
            h, b, s = tok.split(".")
            return ".".join([h, world.b64(json.dumps({**p, "sub": url("x")}).encode()), s])
        if how == "other":  # signed by the issuer, for another purpose
            from cryptojwt.jwt import JWT
            return JWT(key_jar=fes["m"].keyjar, iss=url("m")).pack(payload={**{k: v for k, v in p.items() if k != "iat"}, "sub": url("x")}, iat=p["iat"])
        return tok

    def token_of(v, val):
        try:
            p = factory(val).jwt.payload()
            return {"tid": tback.get(p["id"], p["id"]), "sub": name(p["sub"]), "iat": rel(p["iat"]), "good": v.partition(":")[2] in ("", "other")}
        except Exception:
            return {"tid": "", "sub": "", "iat": 0, "good": False}

    def signed(tok, s):
        j = factory(tok)
        try:
            j.verify_compact(tok, keys=fes[s].keyjar.get_issuer_keys(""))
            return True
        except Exception:
            return False

    def body(o, p, path):
        """What a payload says"""
        o.update(iat=rel(p.get("iat")), exp=rel(p.get("exp")), extra=sorted(set(p) - CLAIMS[path]))
        if path == "trust_mark":
            o.update(kind="mark" if p.get("iss") == url("m") else "other", tid=tback.get(p["id"], p["id"]), sub=name(p["sub"]))
        elif path == "resolve":
            o.update(kind="resolved" if p["iss"] == url("t") else "other", sub=name(p["sub"]), types=sorted(TBACK.get(t, t) for t in p.get("metadata", {})))
        else:
            o.update(kind="es", iss=name(p["iss"]), sub=name(p["sub"]), keys=kids(p.get("jwks")))
            md = p.get("metadata", {}).get("federation_entity", {})
            o["announced"] = [[k[len("federation_"):-len("_endpoint")], v] for k, v in md.items() if k.endswith("_endpoint")]

    def raw(s, q):
        u = {"config": "/.well-known/openid-federation"}.get(s["path"], "/" + s["path"])
        r = web[s["srv"]].open(u + ("?" + urlencode(q) if q else ""), method=s["method"])
        text = r.get_data(as_text=True)
        ctype = (r.headers.get("Content-Type") or "").split(";")[0]
        o = {"status": r.status_code, "ctype": ctype, "kind": "page", "jwt": "jwt" in ctype or "jose" in ctype, "sig": True, "announced": [],
             "echo": "<script>" in text and ctype not in ("application/json",)}
        if text.count(".") == 2 and text.startswith("ey"):
            body(o, factory(text).jwt.payload(), s["path"])
            o["sig"] = signed(text, s["srv"])
            if o["kind"] == "mark":
                issued.append(text)
        else:
            try:
                d = json.loads(text)
            except ValueError:
                d = None
            if isinstance(d, list):
                o.update(kind="ids", ids=[name(x) for x in d])
                if len(set(d)) != len(d):
                    o["kind"] = "twice"
            elif isinstance(d, dict):
                o["kind"] = "active" if d == {"active": True} else "error" if "error" in d else "other"
        return o

    def by_client(s, q):
        d = {}
        for k, v in q:
            d.setdefault(k, v)
        at = {"endpoint": f"{url(s['srv'])}/{s['path']}"} if s["srv"] == "t" else {"fetch_endpoint": f"{url(s['srv'])}/{s['path']}"}
        p = s["path"]
        if p == "config":
            r, err = world.outcome(client.do_request, "entity_configuration", entity_id=url(s["srv"]))
        elif p == "fetch":
            r, err = world.outcome(client.do_request, "entity_statement", issuer=url(s["srv"]), subject=d["sub"])
        elif p == "list":
            r, err = world.outcome(client.do_request, "list", entity_id=url(s["srv"]), **d)
        elif p == "resolve":
            r, err = world.outcome(client.do_request, "resolve", entity_id=url(s["srv"]), request_args=d, **at)
        elif p == "trust_mark":
            r, err = world.outcome(client.do_request, "trust_mark", request_args=d, endpoint=at["fetch_endpoint"])
        else:
            if "iat" in d:
                d["iat"] = int(d["iat"])
            r, err = world.outcome(client.do_request, p, request_args=d, **at)
        o = {"status": 200, "ctype": "", "kind": "error", "jwt": True, "sig": True, "announced": [], "echo": False, "err": err or ""}
        if r is not None and not err:
            if isinstance(r, list):
                o.update(kind="ids", ids=[name(x) for x in r])
            elif "error" in r or "http_response" in r:
                pass
            elif p == "trust_mark_status":
                o["kind"] = "active" if r.to_dict() == {"active": True} else "other"
            else:
                body(o, r.to_dict() if hasattr(r, "to_dict") else dict(r), p)
        return o

    with fed:
        for s in case["steps"]:
            if s["op"] == "tick":
                CLOCK.now += s["d"]
            elif s["op"] == "reg":
                x = s["r"]
                fes["t"].server.subordinate[url(x["id"])] = {"jwks": jwks(x["keys"]), "entity_types": [TYPES[t] for t in x["types"]],
                                                              **({"intermediate": True} if x["inter"] else {})}
                x["keys"] = spell(x["keys"])
            elif s["op"] == "unreg":
                sub = fes["t"].server.subordinate
                if isinstance(sub, dict):
                    sub.pop(url(s["id"]), None)
                else:  # The file is removed. The library's own way to do so does not work
                    for known in (sub.storage, sub.fmtime):
                        known.pop(sub.key_conv.serialize(url(s["id"])), None)
                    for end in ("", ".lock"):
                        fn = os.path.join(sub.fdir, sub.key_conv.serialize(url(s["id"])) + end)
                        if os.path.exists(fn):
                            os.unlink(fn)
            else:
                q = [(k, value(k, v)) for k, v in s["p"]]
                s["tok"] = {"tid": "", "sub": "", "iat": 0, "good": False}
                for (k, v), (_, val) in zip(s["p"], q):
                    if k == "trust_mark":
                        s["tok"] = token_of(v, val)
                        break
                s["obs"] = (by_client if s["how"] == "client" else raw)(s, q)
                s["after"] = registry()
            steps.append(s)
    return {"world": {"own": own, "life": life, "anchored": w["anchored"],
                      "ents": [{**e, "keys": spell(e["keys"])} for e in w["ents"]]}, "steps": steps}


ODD = [SCRIPT, "raw", "", " ", "é\u2028", "a" * 3000, "../../private", "%00", "null", "[]", "{}", "-1", "1e9", "\r\nSet-Cookie: a=b", "https://t.example.org/"]


def rand_case(rng, start=None):
    base = rng.choice(["setup_federation", "dc4eu_federation"] + ([] if start == "init" else ["edu_federation"]))
    tids = ["1", "2", "3"]
    w = {"base": base, "start": start or "direct", "anchored": rng.random() < 0.75,
         "life": [{"tid": t, "life": rng.choice([0, 1, 100, 300])} for t in tids],
         "ents": [{"id": i, "up": rng.random() < 0.85, "keys": [i + "1"], "types": sorted(rng.sample(list(TYPES), rng.choice([1, 1, 2]))),
                   "marks": sorted(rng.sample(tids, rng.choice([0, 1, 2]))) if rng.random() < 0.5 else []} for i in "abd"]}
    w["ents"].append({"id": "m", "up": True, "keys": ["own"], "types": ["fe"], "marks": []})
    steps, nmarks = [], 0
    subs = ["a", "b", "d", "m"]

    def reg(i):
        e = next(x for x in w["ents"] if x["id"] == i)
        return {"op": "reg", "r": {"id": i, "types": e["types"] if rng.random() < 0.8 else rng.sample(list(TYPES), 1), "inter": rng.random() < 0.3,
                                   "keys": list(e["keys"]) if rng.random() < 0.85 else ["z1"]}}

    for i in subs:
        if rng.random() < 0.6:
            steps.append(reg(i))
    now, times, focus = 0, [0], rng.choice(["tm", "ttm", "tmm", "m", "t"])
    for _ in range(rng.randint(10, 36)):
        r = rng.random()
        if r < 0.08:
            d = rng.choice([1, 2, 99, 100, 101, 300])
            now += d
            times.append(now)
            steps.append({"op": "tick", "d": d})
        elif r < 0.16:
            steps.append(reg(rng.choice(subs)))
        elif r < 0.21:
            steps.append({"op": "unreg", "id": rng.choice(subs)})
        else:
            who = lambda: rng.choice(["a", "b", "d", "a", "b", "m", "x", "t"])
            srv = rng.choice(focus)
            path = rng.choice({"t": ["fetch", "fetch", "list", "list", "resolve", "config"],
                               "m": ["trust_mark", "trust_mark", "trust_mark_status", "trust_mark_status", "trust_mark_list", "trust_mark_list", "config"]}[srv])
            how = "client" if rng.random() < 0.3 else "raw"
            p = []

            def maybe(prob, k, v):
                if rng.random() < prob:
                    p.append([k, v])

            full = how == "client"
            if path == "fetch":
                maybe(1 if full else 0.85, "sub", who())
                if not full:
                    maybe(0.4, "iss", rng.choice(["t", "t", "t", "a", "x"]))
            elif path == "list":
                maybe(0.4, "entity_type", rng.choice(list(TYPES)))
                maybe(0.3, "intermediate", rng.choice(["true", "false", "true", "True"] if not full else ["true"]))
                maybe(0.2, "trust_marked", "true")
                maybe(0.15, "trust_mark_id", rng.choice(["1", "2", "9"]))
            elif path == "resolve":
                maybe(1 if full else 0.9, "sub", rng.choice(["a", "b", "d", "m", "a", "x"]))
                maybe(1 if full else 0.9, "anchor", rng.choice("tttttx"))
                maybe(0.4, "type", rng.choice(list(TYPES)))
            elif path == "trust_mark":
                maybe(1 if full else 0.9, "trust_mark_id", rng.choice(["1", "1", "1", "2", "2", "3", "9"]))
                maybe(1 if full else 0.9, "sub", rng.choice("aaab"))
            elif path == "trust_mark_status":
                if rng.random() < 0.3:
                    p.append(["trust_mark", f"{rng.randrange(4)}{rng.choice(['', '', ':key', ':sub', ':other'])}"])
                else:
                    maybe(1 if full else 0.9, "trust_mark_id" if full or rng.random() < 0.8 else "id", rng.choice(["1", "1", "2", "3", "9"]))
                    maybe(1 if full else 0.9, "sub", rng.choice("aaabx"))
                    maybe(0.3, "iat", str(rng.choice(times)) if now else "0")
            elif path == "trust_mark_list":
                maybe(1 if full else 0.9, "trust_mark_id", rng.choice(["1", "1", "2", "3", "9"]))
                maybe(0.3, "sub", rng.choice("aaabx"))
            s = {"op": "ask", "srv": srv, "path": path, "how": how, "method": "GET", "p": p, "odd": False}
            if how == "raw":
                rng.shuffle(p)
                r = rng.random()
                if r < 0.12 and p:
                    x = rng.choice(p)
                    x[1] = "raw:" + rng.choice(ODD)
                    s["odd"] = True
                elif r < 0.2 and p:  # the same parameter again
                    p.append([p[0][0], rng.choice(["a", "b"]) if p[0][0] in NAMES else p[0][1]])
                elif r < 0.3:  # something that nobody asked for
                    k = rng.choice(["foo", "client_id", "authenticated", "error", "http_response", "redirect_location", "lifetime", "jwks", "exp",
                                    "metadata", "trust_marks", "issuer", "response_args", "ref", "logo_uri"])
                    p.append([k, "raw:" + rng.choice([SCRIPT, "1", "https://evil.example.com"])])
                    s["odd"] = k in ("client_id", "authenticated")
                elif r < 0.35:
                    s.update(method=rng.choice(["POST", "PUT", "DELETE", "OPTIONS"]), odd=True)
            steps.append(s)
    return {"world": w, "steps": steps}


def run(ctx):
    ctx.model_check("HttpMC", "HttpQuick.cfg" if ctx.quick else "HttpThorough.cfg")
    for n in ("a1", "b1", "d1", "z1"):
        world.key(n)
    world.rsa("t"), world.rsa("m")
    import flask  # noqa
    cases = [rand_case(ctx.rng) for _ in range(400 if ctx.quick else 6000)] + [rand_case(ctx.rng, "init") for _ in range(16 if ctx.quick else 200)]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("HttpTrace", pairs)
    asked = [s for p in pairs for s in p[1]["steps"] if s["op"] == "ask"]
    ctx.count("asked", [f"{s['path']}:{s['how']}:{s['obs']['kind']}" for s in asked])
    ctx.count("starts", [p[0]["world"]["start"] + ":" + p[0]["world"]["base"] for p in pairs])


def replay(ctx, case):
    ctx.judge("HttpTrace", ctx.execute(run_case, [case]))
