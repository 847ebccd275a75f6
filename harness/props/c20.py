"""C20 registration, the client's side"""
import json

import world
from props import applib
from props.applib import TYPES
from props.applib import flat
from props.applib import name
from props.applib import url
from props.c18 import SERVERS
from world import CLOCK

LEVEL = "model_checking"
ME = "a"
OK = "application/entity-statement+jwt"


def response(r):
    md = {}
    for t in r["types"]:
        md[TYPES[t]] = {"contacts": [x["v"] for x in r["own"] if x["t"] == t], "client_id": url(r["sub"]), "client_secret": r["secret"]}
    claims = {"aud": url(r["sub"])}
    if md:
        claims["metadata"] = md
    if r["anchor"]:
        claims["trust_anchor_id"] = url(r["anchor"])
    if r["tampered"]:
        claims["tamper"] = {"metadata": {t: {**m, "contacts": ["evil"]} for t, m in md.items()}}
    return world.statement(url(r["iss"]), url(r["sub"]), r["signer"], r["jwks"], r["exp"], iat=CLOCK.now, **claims)


def others(tok, kind, r):
    """What, apart from the contacts, is not in what is adopted as it is in the response, or the other way around"""
    from cryptojwt.jws.jws import factory
    md = factory(tok).jwt.payload().get("metadata", {}).get(kind)
    if md is None:
        return []
    a, b = json.loads(json.dumps(md)), json.loads(r.to_json()) if hasattr(r, "to_json") else json.loads(json.dumps(r))
    return sorted(k for k in {*a, *b} - set(applib.CLAIMS) if a.get(k) != b.get(k))


def run_case(case):
    CLOCK.install(0)
    worlds = [case["world"]]
    fed = applib.build(case["world"])
    ents = {e["id"]: e for e in case["world"]["ents"]}
    kind = TYPES[case["type"]]
    me = ents[ME]
    own = [x for x in me.get("own", {}).get(case["type"], [])]

    def anchors(names):
        return {url(a): ents[a]["keys"] for a in names}

    rp = applib.client(kind, url(ME), anchors(case["known"]), [url(h) for h in me["hints"]], me["signer"], own, me["uris"], case["where"])
    op = applib.server(SERVERS[case["type"]], applib.OP, anchors(case["opknown"]), [url(h) for h in ents["op"]["hints"]],
                       signer=ents["op"]["signer"])
    srv = op[SERVERS[case["type"]]]
    endp = srv.get_endpoint("registration")
    op["federation_entity"].context.tr_priority = [url(a) for a in case["prio"]]
    cli = rp[kind]
    service = (cli if case["where"] == "client" else rp["federation_entity"]).get_service("registration")
    sent = {}

    def hook(method, uri, body, headers):
        if uri != applib.OP + "/registration":
            return None
        sent["request"] = body.decode() if isinstance(body, bytes) else body
        a = sent["answer"]
        if a["body"] == "plain":
            md = {"client_id": url("evil"), "client_secret": "evil", "contacts": ["evil"]}
            if "urlenc" in a["ctype"]:
                return a["status"], a["ctype"], f"client_id={url('evil')}&client_secret=evil&contacts=evil"
            return a["status"], a["ctype"], json.dumps(md if case["type"] == "rp" else {**md, kind: md})
        if a["body"] == "crafted":
            return a["status"], a["ctype"], response(sent["resp"])
        res, err = world.outcome(lambda: endp.process_request(endp.parse_request(sent["request"])))
        msg = (res or {}).get("response_msg")
        if not msg:
            return 400, "application/json", '{"error": "invalid_request"}'
        sent["response"] = msg
        return a["status"], a["ctype"], msg

    def cred():
        if case["where"] != "client":
            return ["", ""]
        return [cli.context.claims.get_usage("client_id") or "", cli.context.claims.get_usage("client_secret") or ""]

    def stored():
        ctx = service.upstream_get("context")
        r = getattr(ctx, "registration_response", None)
        if not r:
            return ["-"]
        if case["type"] == "oc":
            r = r.get(kind, {})
        return sorted(set(r.get("contacts", [])))

    fed.hook = hook
    first = cred()
    steps = []
    with fed:
        try:
            for s in case["steps"]:
                s = dict(s)
                if s["op"] == "tick":
                    CLOCK.now += s["d"]
                elif s["op"] == "change":
                    worlds.append(s["world"])
                    fed.ents = applib.build(s["world"]).ents
                    s["world"] = len(worlds)
                elif s["op"] == "respond":
                    tok = response(s["resp"])
                    res, err = world.outcome(service.parse_response, tok)
                    o = {"ok": err is None, "err": err or "", "md": [], "cid": "", "others": []}
                    if res:
                        r = res.get(kind, {}) if case["type"] == "oc" else res
                        o.update(md=sorted(set(r.get("contacts", []))), cid=name(r.get("client_id", "")), others=others(tok, kind, r))
                    s.update(obs=o, stored=stored(), cred=cred())
                else:
                    sent.clear()
                    sent.update(answer=s["answer"], resp=s.get("resp"))
                    service.endpoint = applib.OP + "/registration"
                    res, err = world.outcome(cli.do_request, "registration", request_body_type="jose", method="POST",
                                             request_args={"entity_id": url(ME)})
                    if res and ("error" in res or "http_response" in res):
                        err = "error"
                    o = {"ok": err is None, "err": err or "", "md": [], "anchor": "", "op": [], "same": False, "others": [], "sent": "response" in sent}
                    if "response" in sent:
                        from cryptojwt.jws.jws import factory
                        p = factory(sent["response"]).jwt.payload()
                        md = p["metadata"][kind]
                        o["anchor"] = name(p["trust_anchor_id"])
                        info = srv.context.cdb[md["client_id"]]
                        o["op"] = sorted(set(info.get("contacts", [])))
                        o["same"] = (cli.context.claims.get_usage("client_id") == md["client_id"]
                                     and cli.context.claims.get_usage("client_secret") == info["client_secret"])
                    if err is None:
                        r = res.get(kind, {}) if case["type"] == "oc" else res
                        o["md"] = sorted(set(r.get("contacts", [])))
                        if "response" in sent:
                            o["others"] = others(sent["response"], kind, r)
                    s.update(obs=o, stored=stored(), cred=cred())
                steps.append(s)
        finally:
            CLOCK.uninstall()
    keys = {e["id"]: e["keys"] for e in case["world"]["ents"]}
    ws = [applib.trace_world(w, case["known"]) for w in worlds]
    for w in ws:
        for e in w["ents"]:
            e["keys"] = keys[e["id"]]
    return {"type": case["type"], "me": ME, "hints": me["hints"], "own": [{"t": case["type"], "v": v} for v in own], "cred": first,
            "opknown": case["opknown"], "prio": case["prio"], "worlds": ws, "steps": steps}


def rand_response(rng, w, typ, known, now, evil):
    op = next(e for e in w["ents"] if e["id"] == "op")
    ids = [e["id"] for e in w["ents"]]
    r = {"iss": "op", "sub": ME, "signer": op["signer"], "jwks": list(op["keys"]), "exp": now + rng.choice([100, 1000, 86400]),
         "types": [typ], "own": [{"t": typ, "v": f"o{rng.randrange(5)}"} for _ in range(rng.randint(0, 2))],
         "anchor": rng.choice(known), "tampered": False, "secret": f"s{rng.randrange(9)}"}
    if rng.random() < evil:
        k = rng.randrange(8)
        if k == 0:
            r["sub"] = rng.choice([i for i in ids if i != ME])
        elif k == 1:
            r.update(signer="z1", jwks=rng.choice([["z1"], [*r["jwks"], "z1"], r["jwks"]]))
        elif k == 2:
            o = rng.choice(w["ents"])
            r.update(signer=o["signer"], jwks=rng.choice([o["keys"], [*r["jwks"], *o["keys"]]]))
        elif k == 3:
            r["exp"] = now - rng.choice([1, 1, 50, 1000])
        elif k == 4:
            r["tampered"] = True
        elif k == 5:
            r["anchor"] = rng.choice(["x", "op", "m", "t", "u", ""])
        elif k == 6:
            r["iss"] = rng.choice(ids + ["x"])
        else:
            r["types"] = rng.choice([[], [typ, "fe"], ["fe"]])
    return r


def rand_case(rng):
    typ = rng.choice(["rp", "rp", "oc"])
    w = applib.rand_world(rng, rng.random() < 0.3, [ME, "op"], [[typ, "fe"]])
    few = rng.random() < 0.6
    for e in w["ents"]:
        if few and e["id"] != "op":
            # mostly one way to each anchor
            e["hints"] = [h for i, h in enumerate(e["hints"]) if i == 0 or h in "tu" and e["hints"][0] in "tu"]
        if e["leaf"]:
            if e["id"] == "op":
                e.update(types=["op"], own={})
            k = e["id"] + "-rsa"
            for x in w["edges"]:
                if x["sub"] == e["id"] and x["keys"] == e["keys"]:
                    x["keys"] = [k, *e["keys"]]
            e["keys"] = [k, *e["keys"]]
            e["signer"] = k
    anchors = [e["id"] for e in w["ents"] if e["id"] in "tu"]
    known, opknown = [rng.choice([anchors, anchors, anchors[:1]]) for _ in "12"]
    steps, now = [], 0
    change = rng.random() < 0.15
    where = rng.choice(["client", "client", "fe"])
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.2:
            steps.append({"op": "tick", "d": rng.choice([1, 50, 100, 101, 300, 700, 86400])})
            now += steps[-1]["d"]
        elif r < 0.3 and change:
            steps.append({"op": "change", "world": applib.rand_change(rng, w)})
        elif r < 0.45 and where == "client":
            a = {"status": 200, "ctype": OK, "body": "genuine"}
            if rng.random() < 0.4:
                a["body"] = rng.choice(["genuine", "plain", "crafted"])
                a["status"] = rng.choice([200, 201, 302, 307, 400, 401, 403, 404, 500, 503])
                a["ctype"] = rng.choice([OK, OK, "application/json", "json", "urlencoded", "application/x-www-form-urlencoded",
                                         "application/jwt", "jwt", "text/html", ""])
            steps.append({"op": "register", "answer": a})
            if a["body"] == "crafted":
                steps[-1]["resp"] = rand_response(rng, w, typ, known, now, 0.3)
        else:
            steps.append({"op": "respond", "resp": rand_response(rng, w, typ, known, now, 0.45)})
    steps.append({"op": "respond", "resp": rand_response(rng, w, typ, known, now, 0)})
    return {"type": typ, "world": w, "known": known, "opknown": opknown, "where": where, "steps": steps,
            "prio": rng.sample(["t", "u"], rng.randint(0, 2))}


def run(ctx):
    ctx.model_check("ResponseMC", "ResponseQuick.cfg" if ctx.quick else "ResponseThorough.cfg")
    applib.make_keys()
    cases = [rand_case(ctx.rng) for _ in range(500 if ctx.quick else 9000)]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("ResponseTrace", pairs)
    ctx.count("steps", [s["op"] + (":%s:%s" % (s["answer"]["status"], s["answer"]["body"]) if "answer" in s else "")
                        + (":%s" % s["obs"]["ok"] if "obs" in s else "") for p in pairs for s in p[1]["steps"]])
    ctx.count("errors", [s["obs"]["err"] for p in pairs for s in p[1]["steps"] if s.get("obs", {}).get("err")])


def replay(ctx, case):
    ctx.judge("ResponseTrace", ctx.execute(run_case, [case]))
