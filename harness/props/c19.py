"""C19 automatic registration: authorization requests and pushed ones from entities nobody has registered"""
import world
from props import applib
from props.applib import TYPES
from props.applib import flat
from props.applib import name
from props.applib import url
from props.c18 import SERVERS
from props.c18 import request as registration_request
from world import BASE
from world import CLOCK

LEVEL = "model_checking"


def chain_jws(st, now):
    """One statement of a provided chain"""
    claims = {}
    if st["leaf"]:
        own = {t: [x["v"] for x in st["own"] if x["t"] == t] for t in st["types"]}
        claims["metadata"] = applib.metadata(st["types"], own, url(st["sub"]), st["uris"], st["app"])
        claims["authority_hints"] = [url(h) for h in st["hints"]]
    else:
        pol = {}
        for x in st["add"]:
            for c in applib.CLAIMS:
                pol.setdefault(TYPES[x["t"]], {}).setdefault(c, {"add": []})["add"].append(x["v"])
        if pol:
            claims["metadata_policy"] = pol
    if st["tampered"]:
        claims["tamper"] = {"exp": BASE + st["exp"] + 9}
    return world.statement(url(st["iss"]), url(st["sub"]), st["signer"], st["jwks"], st["exp"], iat=now, **claims)


def run_case(case):
    typ = case["type"]
    CLOCK.install(0)
    worlds = [case["world"]]
    fed = applib.build(case["world"])
    keys = {e["id"]: e["keys"] for e in case["world"]["ents"]}
    op = applib.server(SERVERS[typ], applib.OP, {url(a): keys[a] for a in case["known"]}, [url("t")],
                       reg_types=("automatic", "explicit") if case["auto"] else ("explicit",),
                       authn=["request_param"] if case["pop"] else None)
    if case.get("newid"):
        for x in ("authorization", "pushed_authorization"):
            if op[SERVERS[typ]].get_endpoint(x):
                op[SERVERS[typ]].get_endpoint(x).new_client_id = True
    srv = op[SERVERS[typ]]
    cdb = srv.context.cdb
    authz, par, reg = [srv.get_endpoint(x) for x in ("authorization", "pushed_authorization", "registration")]
    urns = []
    ids = {}

    def cid(x):
        n = name(x) if x.startswith("https://") else ""
        return n or (ids.setdefault(x, f"#{len(ids) + 1}") if x else "")

    def clients():
        return [{"id": cid(k), "md": applib.values(v),
                 "uris": [u if isinstance(u, str) else u[0] for u in v.get("redirect_uris") or []],
                 "auto": bool(v.get("automatic_registered"))}
                for k, v in sorted(cdb.items())]

    def seen(res, err):
        ok = err is None and res is not None and "error" not in res
        o = {"ok": ok, "err": err or str((res or {}).get("error", "")), "cid": cid(res.get("client_id", "")) if ok else "",
             "uri": (res.get("redirect_uri") or "") if ok else "", "anchor": "", "state": (res.get("state") or "") if ok else ""}
        if ok and typ == "rp":
            o["anchor"] = name(authz.extra_response_args({}, client_id=res["client_id"]).get("trust_anchor_id", ""))
        return o

    steps = []
    with fed:
        try:
            for n, s in enumerate(case["steps"]):
                s = dict(s)
                if s["op"] == "tick":
                    CLOCK.now += s["d"]
                elif s["op"] == "change":
                    worlds.append(s["world"])
                    fed.ents = applib.build(s["world"]).ents
                    s["world"] = len(worlds)
                elif s["op"] == "register":
                    tok = registration_request(s["req"])
                    res, err = world.outcome(lambda: reg.process_request(reg.parse_request(tok)))
                    s = {"op": "register", "ok": bool(res) and "response_msg" in res, "clients": clients()}
                elif s["op"] in ("authz", "par"):
                    q = s["req"]
                    pars = {"response_type": "code", "client_id": url(q["cid"]), "redirect_uri": q["uri"], "scope": "openid",
                            "state": f"s{n}"}
                    if q["signer"] and s["op"] == "authz":
                        claims = dict(pars, iss=url(q["iss"]), aud=applib.OP, exp=BASE + CLOCK.now + 600)
                        tok = world.sign(claims, q["signer"], typ="oauth-authz-req+jwt")
                        pars["request"] = tok
                    if q["signer"] and s["op"] == "par":
                        ca = {"iss": url(q["iss"]), "sub": url(q["iss"]), "aud": [applib.OP], "exp": BASE + CLOCK.now + 600,
                              "iat": BASE + CLOCK.now, "jti": f"j{n}"}
                        pars["client_assertion"] = world.sign(ca, q["signer"], typ="JWT")
                        pars["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
                    if q["chain"]:
                        pars["trust_chain"] = [chain_jws(st, CLOCK.now) for st in q["chain"]]
                    ep = authz if s["op"] == "authz" else par
                    res, err = world.outcome(ep.parse_request, pars)
                    s["obs"] = o = seen(res, err)
                    if o["ok"] and s["op"] == "par":
                        res, err = world.outcome(ep.process_request, res)
                        u = (res or {}).get("http_response", {}).get("request_uri")
                        o["ok"] = bool(u)
                        o["err"] = err or ""
                        if u:
                            urns.append(u)
                        o["urn"] = len(urns) if u else 0
                    s["clients"] = clients()
                elif s["op"] == "use":
                    u = urns[s["urn"] - 1] if s["urn"] <= len(urns) else f"urn:uuid:{s['urn']}"
                    res, err = world.outcome(authz.parse_request, {"response_type": "code", "client_id": url(s["cid"]), "request_uri": u})
                    s["obs"] = seen(res, err)
                    s["clients"] = clients()
                steps.append(s)
        finally:
            CLOCK.uninstall()
    tw = []
    for w in worlds:
        x = applib.trace_world(w, case["known"])
        for a, e in zip(x["ents"], w["ents"]):
            a.update(own=flat(e.get("own", {})), types=e["types"], uris=e.get("uris", []), app=e.get("app", []))
        tw.append(x)
    return {"type": typ, "auto": case["auto"], "pop": case["pop"], "newid": bool(case.get("newid")), "worlds": tw,
            "anchors": [{"id": a, "keys": keys[a]} for a in case["known"]], "steps": steps}


def ent(w, i):
    return next((e for e in w["ents"] if e["id"] == i), None)


def rand_chain(rng, w, cid, now, evil):
    """A chain that a client provides: what superiors would say about it, some times with something changed"""
    e = ent(w, cid)
    if not e:
        return []
    st = {"iss": cid, "sub": cid, "signer": e["signer"], "jwks": list(e["keys"]), "exp": now + rng.choice([1, 100, 1000]), "leaf": True,
          "hints": e["hints"], "types": e["types"], "own": [{"t": t, "v": f"p{rng.randrange(4)}"} for t in e["types"]],
          "uris": list(e.get("uris", [])),
          "app": [rng.choice([cid + "-app", cid + "-app", cid + "-app2"])] if e.get("app") else [], "add": [], "tampered": False}
    res = [st]
    cur = e
    for _ in range(4):
        if not cur["hints"]:
            break
        up = ent(w, rng.choice(cur["hints"]))
        if not up:
            break
        edge = next((x for x in w["edges"] if x["sup"] == up["id"] and x["sub"] == cur["id"]), None)
        if not edge:
            break
        res.append({"iss": up["id"], "sub": cur["id"], "signer": up["signer"], "jwks": list(edge["keys"]), "leaf": False,
                    "exp": now + (-5 if edge["life"] < 0 else rng.choice([1, 100, 1000])), "hints": [], "types": [], "own": [], "uris": [],
                    "app": [], "add": flat(edge["add"]), "tampered": False})
        cur = up
    if rng.random() < evil:
        x = rng.choice(res)
        k = rng.randrange(8)
        if k == 0:
            x["signer"] = "z1"
        elif k == 1:
            x["exp"] = now - rng.choice([1, 10])
        elif k == 2:
            x["tampered"] = True
        elif k == 3:
            x["jwks"] = ["z1"]
        elif k == 4:
            x["iss"] = rng.choice(["a", "b", "x", "m"])
        elif k == 5:
            x["sub"] = rng.choice(["a", "b", "x", "m"])
        elif k == 6 and len(res) > 1:
            res.remove(x)
        else:
            o = rand_chain(rng, w, rng.choice(["a", "b"]), now, 0)
            cut = rng.randrange(len(res))
            res = res[:cut] + o[cut:]
    return res


def rand_case(rng):
    typ = rng.choice(["rp", "rp", "oc"])
    types = [[typ], [typ], [typ, "fe"], ["fe", typ], ["fe"]] if rng.random() < 0.3 else [[typ]]
    w = applib.rand_world(rng, rng.random() < 0.3, ["a", "b"], types)
    for e in w["ents"]:
        if e["leaf"] and rng.random() < 0.15:
            e["app"] = []
    anchors = [e["id"] for e in w["ents"] if e["id"] in "tu"]
    known = rng.choice([anchors, anchors, anchors[:1]])
    auto, pop = rng.random() < 0.85, typ == "rp" and rng.random() < 0.5
    steps, now, pushed = [], 0, 0
    change = rng.random() < 0.3
    evil = rng.choice([0, 0.3, 0.6])
    cur = w
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < 0.15:
            steps.append({"op": "tick", "d": rng.choice([1, 50, 101, 700, 86400])})
            now += steps[-1]["d"]
        elif r < 0.3 and change:
            cur = applib.rand_change(rng, cur)
            for e in cur["ents"]:
                if e["leaf"] and rng.random() < 0.4:
                    e["app"] = [rng.choice([e["id"] + "-app", e["id"] + "-app2"])]
                    e["uris"] = [f"https://{e['id']}.example.org/cb{rng.randrange(3)}"]
            steps.append({"op": "change", "world": cur})
        elif r < 0.38:
            e = ent(cur, rng.choice("ab"))
            if typ in e["types"]:
                steps.append({"op": "register", "req": {
                    "iss": e["id"], "sub": e["id"], "signer": e["signer"], "jwks": e["keys"], "hints": e["hints"], "types": e["types"],
                    "own": [{"t": typ, "v": "reg"}], "exp": now + 1000, "uris": e["uris"], "tampered": False, "good": True, "bad": ""}})
        elif r < 0.5 and pushed:
            steps.append({"op": "use", "urn": rng.randint(1, pushed + (rng.random() < 0.1)), "cid": rng.choice("aab")})
        else:
            cid = rng.choice(["a", "a", "a", "b", rng.choice([e["id"] for e in w["ents"]] + ["x"])])
            e = ent(cur, cid) or {"app": ["z1"], "uris": ["https://x.example.org/cb"], "keys": ["z1"]}
            par = typ == "oc" and rng.random() < 0.5
            q = {"cid": cid, "iss": cid, "chain": [], "signer": "", "uri": rng.choice(e.get("uris") or ["https://x.example.org/cb"])}
            if pop or par or rng.random() < 0.5:
                q["signer"] = (e.get("app") or ["z1"])[0]
            if rng.random() < 0.4:
                q["chain"] = rand_chain(rng, cur, cid, now, evil)
                if q["signer"] and q["chain"] and q["chain"][0]["app"] and rng.random() < 0.9:
                    q["signer"] = q["chain"][0]["app"][0]
            if rng.random() < evil:
                k = rng.randrange(6)
                if k == 0:
                    q["uri"] = rng.choice(["https://evil.example.org/cb", "https://a.example.org/cb", "https://b.example.org/cb"])
                elif k == 1 and q["signer"]:
                    q["signer"] = rng.choice(["z1", "a-app", "b-app", "a-app2", "a1", "b1"])
                elif k == 2:
                    q["signer"] = "" if q["signer"] else "z1"
                elif k == 3:
                    q["iss"] = rng.choice(["a", "b", "x", "t"])
                elif k == 4:
                    o = rng.choice("ab")
                    q.update(iss=o, signer=o + "-app")
                else:
                    q["chain"] = rand_chain(rng, cur, rng.choice("ab"), now, 0.5)
            steps.append({"op": "par" if par else "authz", "req": q})
            if par:
                pushed += 1
                if rng.random() < 0.6:
                    steps.append({"op": "use", "urn": pushed, "cid": rng.choice([cid, cid, cid, "b"])})
    newid = rng.random() < 0.2
    if newid:
        steps = [s for s in steps if s["op"] != "register"]
    return {"type": typ, "newid": newid, "world": w, "known": known, "auto": auto, "pop": pop, "steps": steps}


def run(ctx):
    ctx.model_check("AutoMC", "AutoQuick.cfg" if ctx.quick else "AutoThorough.cfg")
    applib.make_keys()
    cases = [rand_case(ctx.rng) for _ in range(500 if ctx.quick else 9000)]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("AutoTrace", pairs)
    ctx.count("steps", [s["op"] + (":%s" % s["obs"]["ok"] if "obs" in s else "") for p in pairs for s in p[1]["steps"]])
    ctx.count("errors", [s["obs"]["err"] for p in pairs for s in p[1]["steps"] if s.get("obs", {}).get("err")])


def replay(ctx, case):
    ctx.judge("AutoTrace", ctx.execute(run_case, [case]))
