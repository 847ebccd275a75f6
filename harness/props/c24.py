"""C24 a client and the provider it uses"""
import json
from urllib.parse import parse_qs
from urllib.parse import urlparse

import world
from props import applib
from props.applib import TYPES
from props.applib import name
from props.applib import url
from world import BASE
from world import CLOCK

LEVEL = "model_checking"
ME, OP = "a", "o"
RP = "openid_relying_party"


def provider(m):
    """What the provider states about itself as a provider"""
    u = url(OP)
    md = {"authorization_endpoint": u + "/authz", "token_endpoint": u + "/token", "userinfo_endpoint": u + "/userinfo",
          "federation_registration_endpoint": u + "/register", "contacts": list(m["own"]),
          "client_registration_types_supported": list(m["types"]), "response_types_supported": ["code", "id_token", "code id_token"],
          "subject_types_supported": ["public"], "id_token_signing_alg_values_supported": ["RS256", "ES256"],
          "token_endpoint_auth_methods_supported": ["private_key_jwt"]}
    if m["issuer"]:
        md["issuer"] = url(m["issuer"])
    if m["authn"]:
        md["request_authentication_methods_supported"] = {"authorization_endpoint": ["request_object"]}
    if m["keys"] == "jwks":
        md["jwks"] = world.pub(*m["jwks"])
    elif m["keys"] == "uri":
        md["jwks_uri"] = u + "/jwks"
    return md


def build(w):
    fed = applib.build(w)
    for e in w["ents"]:
        if e["id"] == OP:
            md = fed.ents[url(OP)]["metadata"]
            md.clear()
            md[w["md"]["type"]] = provider(w["md"])
    return fed


def client(case, hints, signer):
    from fedservice.defaults import federation_services
    from fedservice.utils import make_federation_combo
    eid = url(ME)
    conf = {"client_id": eid, "redirect_uris": [eid + "/cb", eid + "/cb2"], "client_type": "oidc", "client_secret": "a longesh password",
            "preference": {"client_registration_types": list(case["types"]), "grant_types": ["authorization_code", "implicit"],
                           "response_types": ["code", "id_token", "code id_token"]},
            "authorization_request_endpoints": ["authorization_endpoint"],
            "client_authn_methods": ["private_key_jwt", "client_secret_basic", "bearer_header"]}
    if case["preset"]:
        conf["provider_info"] = {"issuer": url(OP)}
    fed = federation_services("entity_configuration", "entity_statement")
    fed["registration"] = {"class": "fedservice.appclient.oidc.registration.Registration"}
    srv = {"authorization": {"class": "fedservice.appclient.oidc.authorization.Authorization"},
           "accesstoken": {"class": "idpyoidc.client.oidc.access_token.AccessToken"},
           "userinfo": {"class": "idpyoidc.client.oidc.userinfo.UserInfo"},
           "registration": {"class": "fedservice.appclient.oidc.registration.Registration"}}
    if case.get("args"):
        srv["authorization"]["kwargs"] = {"request_args": {k: json.loads(v) if k == "claims" else v for k, v in case["args"].items()}}
    c = make_federation_combo(
        eid, preference={"organization_name": "RP"}, authority_hints=hints, endpoints=["entity_configuration"],
        key_config=applib.EC_KEYS, trust_anchors={url(a): world.pub(*ks) for a, ks in case["known"].items()}, services=fed,
        httpc_params={"verify": False, "timeout": 1},
        entity_type={RP: {"class": "fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity",
                          "kwargs": {"config": conf, "services": srv, "entity_type": RP, "key_conf": {"key_defs": applib.EC_KEYS["key_defs"]}}}})
    world.give_key(c["federation_entity"], world.rsa(signer))
    world.give_key(c[RP], world.rsa("rp-a"))
    return c


ARGS = ["prompt", "acr_values", "login_hint", "ui_locales", "claims"]


def plain(v):
    if isinstance(v, list):
        return " ".join(v)
    if isinstance(v, str) and v[:1] == "{":
        v = json.loads(v)
    return v if isinstance(v, str) else json.dumps(v, sort_keys=True)


def rand_args(rng):
    vals = {"prompt": ["login", "consent"], "acr_values": ["1", "1 2"], "login_hint": ["x", "y"], "ui_locales": ["sv", "en sv"],
            "claims": ['{"id_token": {"email": null}}', '{"userinfo": {"name": {"essential": true}}}']}
    return {k: rng.choice(vals[k]) for k in rng.sample(ARGS, rng.choice([0, 0, 1, 2]))}


def id_token(d, nonces):
    now = int(CLOCK.now + BASE)
    p = {"iss": url(d["iss"]), "sub": d["sub"], "aud": [url(x) for x in d["aud"]], "exp": now + d["life"], "iat": now}
    if d["nonce"] == "none":
        pass
    elif d["nonce"] in nonces:
        p["nonce"] = nonces[d["nonce"]]
    else:
        p["nonce"] = "something else"
    if d["signer"] == "none":
        return world.b64(json.dumps({"alg": "none"}).encode()) + "." + world.b64(json.dumps(p).encode()) + "."
    return world.sign(p, d["signer"], typ="JWT", tamper={"sub": "evil"} if d["tampered"] else None)


def run_case(case):
    CLOCK.install(0)
    worlds = [case["world"]]
    fed = build(case["world"])
    me = next(e for e in case["world"]["ents"] if e["id"] == ME)
    c = client(case, [url(h) for h in me["hints"]], me["signer"])
    fe, rp = c["federation_entity"], c[RP]
    fe.context.tr_priority = [url(a) for a in case["prio"]]
    ctx = rp.context
    ctx.issuer = url(OP)
    now = {"login": None}
    states, nonces, uris, jtis = {}, {}, {}, set()

    def keynames(i):
        return sorted(k.kid for k in ctx.keyjar.get_issuer_keys(i)) if i in ctx.keyjar.owners() else []

    mine = {i: keynames(i) for i in ctx.keyjar.owners()}

    def hook(method, uri, body, headers):
        u, _, q = uri.partition("?")
        o = url(OP)
        if u == o + "/jwks":
            return 200, "application/json", json.dumps(world.pub(*worlds[-1]["md"]["jwks"]))
        d = now["login"]
        if u == o + "/token":
            b = parse_qs(body.decode() if isinstance(body, bytes) else body)
            d["asked"] = b.get("code") == ["c1"] and b.get("redirect_uri") == [uris.get(d["state"])]
            t = d["token"]
            if t["shape"] == "error":
                return t["status"], "application/json", '{"error": "invalid_grant"}'
            if t["shape"] == "text":
                return t["status"], "text/plain", "hello"
            res = {"access_token": t["at"], "token_type": "Bearer"}
            if t["expires"]:
                res["expires_in"] = t["expires"]
            if t["idt"]:
                res["id_token"] = id_token(t["idt"], nonces)
            if t["plant"]:
                res["__verified_id_token"] = {"iss": o, "sub": "evil", "aud": [url(ME)], "exp": int(BASE + CLOCK.now + 1000), "iat": int(BASE)}
            return t["status"], "application/json", json.dumps(res)
        if u == o + "/userinfo":
            t = d["info"]
            d["bearer"] = headers.get("Authorization", "")
            return t["status"], "application/json", json.dumps({"sub": t["sub"]})
        return None

    def look():
        pi = ctx.provider_info or {}
        keys = keynames(url(OP))
        others = {i: keynames(i) for i in ctx.keyjar.owners() if i != url(OP)} != {i: k for i, k in mine.items() if i != url(OP)}
        return {"md": sorted(set(pi.get("contacts", []))) if len(pi) > 1 else ["-"], "keys": keys, "others": others,
                "sessions": sorted(k for k, s in states.items() if s in ctx.cstate._db)}

    fed.hook = hook
    steps = []
    with fed:
        try:
            for s in case["steps"]:
                s = dict(s)
                if s["op"] == "tick":
                    CLOCK.now += s["d"]
                elif s["op"] == "change":
                    worlds.append(s["world"])
                    fed.ents = build(s["world"]).ents
                    s["world"] = len(worlds)
                elif s["op"] == "info":
                    if s["fresh"] and ctx.provider_info:
                        ctx.provider_info = {"issuer": url(OP)} if case["preset"] else {}
                    res, err = world.outcome(rp.do_provider_info)
                    s["obs"] = {"ok": err is None, "err": err or "", "iss": name(res) if isinstance(res, str) else "",
                                "ends": sorted((ctx.provider_info or {}).get(e, "") for e in ("authorization_endpoint", "token_endpoint"))
                                == [url(OP) + "/authz", url(OP) + "/token"]}
                elif s["op"] == "reg":
                    before = len(world.NET.log)
                    res, err = world.outcome(rp.do_client_registration)
                    s["obs"] = {"ok": err is None, "err": err or "", "asked": len(world.NET.log) > before}
                elif s["op"] == "init":
                    k = s["k"]
                    args = {"response_type": s["rt"]} if s["rt"] != "code" or s["explicit"] else {}
                    args.update({x: json.loads(v) if x == "claims" else v for x, v in s.get("args", {}).items()})
                    args = args or None
                    known = set(ctx.cstate._db)
                    res, err = world.outcome(rp.init_authorization, args)
                    o = {"ok": err is None, "err": err or "", "to": "", "cid": "", "uri": False, "fresh": False, "ro": "", "rt": False,
                         "aud": False, "life": 0, "jti": False, "same": False, "args": []}
                    if res:
                        u = urlparse(res)
                        q = {x: v[0] for x, v in parse_qs(u.query).items()}
                        outer = dict(q)
                        o["to"] = "own" if f"{u.scheme}://{u.netloc}{u.path}" == url(OP) + "/authz" else u.netloc
                        if "request" in q:
                            from cryptojwt.jws.jws import factory
                            jws = factory(q["request"])
                            o["ro"] = jws.jwt.headers.get("kid", "?")
                            try:
                                jws.verify_compact(q["request"], [world.rsa("rp-a")])
                            except Exception:
                                o["ro"] = "bad"
                            p = jws.jwt.payload()
                            aud = p.get("aud", [])
                            o["aud"] = bool(set([aud] if isinstance(aud, str) else aud) & {url(OP), url(OP) + "/authz"})
                            o["life"] = p.get("exp", 10 ** 9) - int(CLOCK.now + BASE)
                            o["jti"] = p.get("jti") is not None and p["jti"] not in jtis
                            jtis.add(p.get("jti"))
                            o["same"] = p.get("iss") == url(ME) and all(p.get(x, v) == v for x, v in outer.items() if x != "request")
                            q.update({x: v for x, v in p.items()})
                        o["cid"] = name(q.get("client_id", ""))
                        uris[k] = q.get("redirect_uri")
                        o["uri"] = q.get("redirect_uri") in (url(ME) + "/cb", url(ME) + "/cb2")
                        o["rt"] = q.get("response_type") == s["rt"]
                        o["args"] = sorted([x, plain(v)] for x, v in q.items() if x in ARGS)
                        st = q.get("state")
                        o["fresh"] = bool(st) and st not in known and bool(q.get("nonce")) and q.get("nonce") not in nonces.values()
                        states[k], nonces[k] = st, q.get("nonce")
                    s["obs"] = o
                elif s["op"] == "login":
                    r = s["resp"]
                    now["login"] = d = {"token": r["token"], "info": r["info"], "asked": False, "bearer": "", "state": r["state"]}
                    before = len(world.NET.log)
                    msg = {"state": states.get(r["state"], "unknown")}
                    if r["iss"]:
                        msg["iss"] = url(r["iss"])
                    if r["error"]:
                        msg["error"] = "access_denied"
                    else:
                        if r["code"]:
                            msg["code"] = "c1"
                        if r["idt"]:
                            msg["id_token"] = id_token(r["idt"], nonces)
                    res, err = world.outcome(rp.finalize, msg)
                    if res is not None and "error" in res:
                        res, err = None, "error"
                    o = {"ok": err is None, "err": err or "", "asked": d["asked"], "sub": "", "info": "", "k": "", "at": "", "bearer": d["bearer"],
                         "to": sorted({name("/".join(x[1].split("/")[:3])) for x in world.NET.log[before:]})}
                    if res is not None:
                        o["sub"] = (res.get("id_token") or {}).get("sub", "")
                        o["info"] = (res.get("userinfo") or {}).get("sub", "")
                        o["k"] = next((k for k, x in states.items() if x == res["state"]), "?")
                        o["at"] = res["token"] or ""
                    s["obs"] = o
                elif s["op"] == "active":
                    res, err = world.outcome(rp.has_active_authentication, states.get(s["k"], "unknown"))
                    tok, terr = world.outcome(rp.get_valid_access_token, states.get(s["k"], "unknown"))
                    s["obs"] = {"ok": bool(res), "err": err or "", "at": tok[0] if tok else "", "terr": terr or ""}
                elif s["op"] == "clear":
                    _, err = world.outcome(rp.clear_session, states.get(s["k"], "unknown"))
                    s["err"] = err or ""
                s["after"] = look()
                steps.append(s)
        finally:
            CLOCK.uninstall()
    ws = []
    for w in worlds:
        x = applib.trace_world(w, list(case["known"]))
        for e, full in zip(x["ents"], w["ents"]):
            e["keys"] = full["keys"]
        x["md"] = w["md"]
        ws.append(x)
    for s in steps:
        if s["op"] == "login":
            s["resp"] = {**s["resp"], "idt": tla(s["resp"]["idt"]), "token": {**s["resp"]["token"], "idt": tla(s["resp"]["token"]["idt"])}}
    for s in steps:
        if s["op"] == "init":
            s["args"] = sorted([k, v] for k, v in s.get("args", {}).items())
    return {"worlds": ws, "args": sorted([k, v] for k, v in case.get("args", {}).items()), "types": case["types"], "prio": case["prio"], "me": ME, "op": OP, "steps": steps}


def tla(d):
    return {"none": False, **d} if d else {"none": True}


def rand_md(rng, strange):
    return {"type": "oauth_authorization_server" if rng.random() < strange / 3 else "openid_provider",
            "issuer": rng.choice(["a", "t", "x", ""]) if rng.random() < strange / 2 else OP, "own": ["own"] if rng.random() < 0.7 else [],
            "types": ["automatic"] if rng.random() > strange else rng.choice([["explicit"], []]),
            "authn": rng.random() > strange / 2, "keys": rng.choice(["jwks", "jwks", "jwks", "uri", "none"] if strange else ["jwks", "uri"]),
            "jwks": rng.sample(["o1", "o2", "o3"], rng.randint(1, 2))}


def good_token(rng, w, k):
    return {"iss": OP, "sub": "u" + k, "aud": [ME], "life": rng.choice([1, 50, 300, 1000]), "nonce": k, "signer": rng.choice(w["md"]["jwks"]),
            "tampered": False}


def rand_token(rng, w, k, evil):
    d = good_token(rng, w, k)
    if rng.random() < evil:
        i = rng.randrange(9)
        if i == 0:
            d["iss"] = rng.choice(["x", "t", "a"])
        elif i == 1:
            d["sub"] = "evil"
        elif i == 2:
            d["aud"] = rng.choice([["b"], ["b", "o"], ["a", "b"], []])
        elif i == 3:
            d["life"] = rng.choice([-1, -1, -10, -1000, 0])
        elif i in (4, 5):
            d["nonce"] = rng.choice([x for x in ("1", "2", "3", "none", "x") if x != k])
        elif i == 6:
            d["tampered"] = True
        else:
            d["signer"] = rng.choice(["o1", "o2", "o3", "z1", "t1", "a1", "none"])
    return d


def rand_answer(rng, w, k, rt, evil):
    idt = rand_token(rng, w, k, evil)
    r = {"state": k, "iss": OP, "error": False, "code": "code" in rt, "idt": rand_token(rng, w, k, evil) if "id_token" in rt else None,
         "token": {"status": 200, "shape": "ok", "at": "at" + k, "expires": rng.choice([0, 1, 100, 500]), "plant": False, "idt": idt},
         "info": {"status": 200, "sub": idt["sub"]}}
    if rng.random() < evil:
        i = rng.randrange(9)
        if i == 0:
            r["state"] = rng.choice(["1", "2", "3", "9"])
        elif i == 1:
            r["iss"] = rng.choice(["x", "t", "a", "", ""])
        elif i == 2:
            r["error"] = True
        elif i == 3:
            r.update(code=not r["code"], idt=None if r["idt"] else rand_token(rng, w, k, evil))
        elif i == 4:
            r["token"].update(shape=rng.choice(["error", "text", "ok"]), status=rng.choice([200, 400, 500]))
        elif i == 5:
            r["token"].update(idt=None, plant=rng.random() < 0.6, status=rng.choice([200, 200, 400]))
        elif i == 6:
            r["token"]["plant"] = True
        elif i == 7:
            r["info"]["sub"] = rng.choice(["evil", "u1", "u2"])
        else:
            r["info"]["status"] = rng.choice([400, 401, 500])
    return r


def rand_case(rng):
    w = applib.rand_world(rng, rng.random() < 0.3, [ME, OP], [["rp", "fe"]])
    strange = rng.choice([0, 0, 0.3])
    for e in w["ents"]:
        if e["id"] == OP:
            e.update(types=["op"], own={})
        elif e["id"] == ME:
            for x in w["edges"]:
                if x["sub"] == ME and x["keys"] == e["keys"]:
                    x["keys"] = [ME + "-rsa", *e["keys"]]
            e.update(keys=[ME + "-rsa", *e["keys"]], signer=ME + "-rsa")
    w["md"] = rand_md(rng, strange)

    def adds(w):
        for x in w["edges"]:
            if rng.random() < 0.6:
                x["add"]["op"] = [f"v{rng.randrange(9)}" for _ in range(rng.randint(1, 2))]
        return w

    adds(w)
    anchors = [e["id"] for e in w["ents"] if e["id"] in "tu"]
    known = {a: next(e["keys"] for e in w["ents"] if e["id"] == a) for a in rng.choice([anchors, anchors, anchors[:1]])}
    steps = [{"op": "info", "fresh": False}, {"op": "reg"}]
    if rng.random() < 0.1:
        steps = rng.sample(steps, rng.randint(0, 2))
    last, rts, cur, change = [], {}, w, rng.random() < 0.25
    for _ in range(rng.randint(3, 10)):
        r = rng.random()
        ks = sorted(rts)
        if r < 0.12:
            steps.append({"op": "tick", "d": rng.choice([1, 49, 50, 51, 99, 100, 101, 300, 1000, 86400])})
        elif r < 0.2 and change:
            cur = adds(applib.rand_change(rng, cur))
            cur["md"] = rand_md(rng, strange)
            steps += [{"op": "change", "world": cur}] + ([{"op": "info", "fresh": True}] if rng.random() < 0.6 else [])
        elif r < 0.24:
            steps.append({"op": "info", "fresh": rng.random() < 0.7})
        elif r < 0.45 and len(ks) < 3 or not ks:
            k = str(len(ks) + 1)
            rts[k] = rng.choice(["code", "code", "id_token", "code id_token"])
            steps.append({"op": "init", "k": k, "rt": rts[k], "explicit": rng.random() < 0.5, "args": rand_args(rng)})
        elif r < 0.75:
            k = rng.choice(ks)
            steps.append({"op": "login", "resp": rand_answer(rng, cur, k, rts[k], rng.choice([0, 0, 0.3, 0.6]))})
            last = [k]
        elif r < 0.95:
            steps.append({"op": "active", "k": rng.choice(last + ks)})
        else:
            steps.append({"op": "clear", "k": rng.choice(ks)})
    for k in sorted(rts):
        steps += [{"op": "login", "resp": rand_answer(rng, cur, k, rts[k], 0)}, {"op": "active", "k": k}]
    return {"world": w, "known": known, "args": rand_args(rng), "types": ["automatic"] if rng.random() > strange / 3 else ["explicit"], "preset": rng.random() < 0.5,
            "prio": rng.sample(["t", "u"], rng.randint(0, 2)), "steps": steps}


def run(ctx):
    ctx.model_check("LoginMC", "LoginQuick.cfg" if ctx.quick else "LoginThorough.cfg")
    applib.make_keys()
    for n in "123":
        world.key("o" + n)
    cases = [rand_case(ctx.rng) for _ in range(500 if ctx.quick else 9000)]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("LoginTrace", pairs)
    ctx.count("steps", [s["op"] + (":%s" % s["obs"]["ok"] if "obs" in s else "") for p in pairs for s in p[1]["steps"]])
    ctx.count("errors", [s["op"] + ":" + s["obs"]["err"] for p in pairs for s in p[1]["steps"] if s.get("obs", {}).get("err")])


def replay(ctx, case):
    ctx.judge("LoginTrace", ctx.execute(run_case, [case]))
