"""C22 answers to questions asked of other entities"""
import json

import world
from props import applib
from props.applib import url
from world import BASE
from world import CLOCK
from world import ES_TYPE
from world import NET
from world import WELL_KNOWN

LEVEL = "model_checking"
ME = "x"
ENTS = "tipe"
KEYS = ["t1", "t2", "i1", "i2", "p1", "p2", "e1", "z1"]
RR_TYPE = "application/resolve-response+jwt"


def token(d, kind):
    """The text of a reply that is described by d"""
    if d["form"] == "plain" or d["form"] == "error" or d["form"] == "list":
        pass
    claims = {"jwks": world.pub(d["jwks"]), "metadata": {"federation_entity": {
        "federation_fetch_endpoint": f"{url(d['where'])}/fetch{d['n']}", "federation_list_endpoint": f"{url(d['where'])}/list{d['n']}"}}}
    payload = {"iss": url(d["iss"]), "sub": url(d["sub"]), "iat": d["iat"] + BASE, "exp": d["exp"] + BASE, "jti": f"n{d['n']}", **claims}
    if d["form"] == "plain":
        return json.dumps(payload)
    if d["form"] == "error":
        return json.dumps({"error": "not_found", "error_description": "no"})
    if d["form"] == "list":
        return json.dumps([url("s") + f"/{d['n']}"])
    if d["form"] == "dict":
        return json.dumps({"entities": [url("s")]})
    if d["form"] == "junk":
        return "<html>hello</html>"
    typ = "resolve-response+jwt" if kind == "resolve" else "entity-statement+jwt"
    if d["form"] == "none":
        return world.b64(json.dumps({"alg": "none", "typ": typ, "kid": d["signer"]}).encode()) + "." + world.b64(json.dumps(payload).encode()) + "."
    if d["form"] == "wrongkid":   # says that it is signed with the key of someone else
        return world.sign(payload, "z1", kid=d["signer"], typ=typ)
    tok = world.sign(payload, d["signer"], kid=d["signer"], typ=typ)
    if d["form"] == "tampered":
        h, p, s = tok.split(".")
        payload["metadata"]["federation_entity"]["organization_name"] = "Evil"
        tok = ".".join([h, world.b64(json.dumps(payload).encode()), s])
    return tok


def serve(d, kind):
    default = "application/json" if kind == "list" else RR_TYPE if kind == "resolve" and d is not None else ES_TYPE
    return d["status"], d["ctype"] or default, token(d, kind)


def run_case(case):
    CLOCK.install(0)
    try:
        fe = world.make_entity(url(ME), {url("t"): ["t1"]}, services=["entity_configuration", "entity_statement", "list", "resolve"])
        for e, ks in case["known"].items():
            for k in ks:
                fe.keyjar.import_jwks(world.pub(k), url(e))
        cur = {}

        def where(u):
            base, _, q = u.partition("?")
            for e in ENTS:
                if base.startswith(url(e) + "/"):
                    tail = base[len(url(e)) + 1:]
                    if base == url(e) + WELL_KNOWN:
                        return [e, "ec", 0]
                    for w in ("fetch", "list", "resolve"):
                        if tail.startswith(w):
                            return [e, w, int(tail[len(w):] or 0)]
            return ["?", u, 0]

        def handler(method, u, body, headers):
            w = where(u)
            cur["urls"].append(w)
            if w[1] == "ec" and cur["s"]["kind"] != "config":
                return serve(cur["s"]["ec"], "ec")
            return serve(cur["s"]["re"], cur["s"]["kind"])

        NET.install(handler)
        cc = fe.function.trust_chain_collector.config_cache

        def serial(d):
            if isinstance(d, list):
                return int(d[0].rsplit("/", 1)[1]) if len(d) == 1 and d[0].startswith(url("s") + "/") else -1
            j = (d or {}).get("jti", "n-1")
            return int(j[1:])

        steps = []
        for s in case["steps"]:
            s = json.loads(json.dumps(s))
            if s["op"] == "tick":
                CLOCK.now += s["d"]
            elif s["op"] == "learn":
                fe.keyjar.import_jwks(world.pub(s["key"]), url(s["of"]))
            else:
                cur.update(s=s, urls=[])
                k = s["kind"]
                if k == "config":
                    if s["how"]:
                        res, err = world.outcome(fe.do_request, "entity_configuration", request_args={"entity_id": url(s["asked"])})
                    else:
                        res, err = world.outcome(fe.do_request, "entity_configuration", entity_id=url(s["asked"]))
                elif k == "statement":
                    res, err = world.outcome(fe.do_request, "entity_statement", issuer=url(s["asked"]), subject=url(s["about"]))
                elif k == "resolve":
                    res, err = world.outcome(fe.do_request, "resolve", entity_id=url(s["asked"]), endpoint=url(s["asked"]) + "/resolve",
                                             request_args={"sub": url(s["about"]), "anchor": url("t"), "trust_anchor": url("t")})
                else:
                    res, err = world.outcome(fe.do_request, "list", entity_id=url(s["asked"]))
                ok = err is None and res is not None and "error" not in res and "http_response" not in res
                s["obs"] = {"ok": bool(ok), "err": err or "", "doc": serial(res) if ok else 0, "urls": cur["urls"], "followed": []}
            s["after"] = {"cache": {}, "known": {}}
            for e in ENTS:
                d = cc[url(e)]
                s["after"]["cache"][e] = serial(d) if d else 0
                s["after"]["known"][e] = sorted({k.kid if k.kid in KEYS else "own" for k in (fe.keyjar.get_issuer_keys(url(e)) if url(e) in fe.keyjar.owners() else [])})
            steps.append(s)
        return {"known": {e: sorted(set(case["known"].get(e, [])) | ({"t1"} if e == "t" else set())) for e in ENTS}, "steps": steps}
    finally:
        NET.uninstall()
        CLOCK.uninstall()


def reply(rng, n, asked, about, now, kind, bad=0.45):
    d = {"n": n, "status": 200, "form": "signed", "signer": asked + "1", "iss": asked, "sub": about, "iat": now - rng.choice([0, 1, 100]),
         "exp": now + rng.choice([1000, 1000, 5000, 86400, 700, 500, 100]), "ctype": "", "kid": True, "jwks": "p1", "where": asked}
    if kind == "list":
        d["form"] = "list"
        if rng.random() < bad:
            d.update(rng.choice([{"status": 404}, {"form": "error", "status": 400}, {"form": "error"}, {"form": "dict"}, {"form": "junk"}]))
        return d
    for _ in range(2):
        if rng.random() < bad:
            c = rng.choice(["signer", "form", "iss", "sub", "iat", "exp", "status", "ctype", "other", "me"])
            if c == "signer":
                d["signer"] = rng.choice(KEYS)
            elif c == "form":
                d["form"] = rng.choice(["tampered", "none", "plain", "junk", "error", "wrongkid"])
                d["ctype"] = rng.choice(["", "application/json", "application/jose"])
            elif c == "iss":
                d["iss"] = rng.choice(ENTS)
            elif c == "sub":
                d["sub"] = rng.choice(ENTS)
            elif c == "iat":
                d["iat"] = now + rng.choice([1, 20, 1000])
            elif c == "exp":
                d["exp"] = now - rng.choice([1, 10, 20, 1000])
                d["iat"] = d["exp"] - 100
            elif c == "status":
                d["status"] = rng.choice([404, 400, 500, 302])
            elif c == "ctype":
                d["ctype"] = rng.choice(["application/json", "application/jose", "text/plain", "application/jwt", "text/html"])
            elif c == "other":     # a statement of someone else that is genuine
                o = rng.choice(ENTS)
                d.update(iss=o, signer=o + "1", sub=rng.choice([o, asked, about]))
            else:                  # everything said by the host itself about itself
                d.update(iss=asked, sub=asked)
    return d


def rand_case(rng):
    known = {"i": ["i1"], "p": ["p1"]}
    if rng.random() < 0.3:
        del known[rng.choice(["i", "p"])]
    now, n, steps = 0, 0, []
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        if r < 0.2:
            d = rng.choice([1, 50, 100, 400, 1000, 4000, 90000])
            now += d
            steps.append({"op": "tick", "d": d})
        elif r < 0.27:
            of = rng.choice("ipe")
            steps.append({"op": "learn", "of": of, "key": of + rng.choice("12" if of != "e" else "1")})
        else:
            kind = rng.choice(["config", "statement", "statement", "resolve", "list"])
            asked = "t" if kind == "list" else rng.choice(ENTS)
            about = asked if kind == "config" else rng.choice(ENTS + "x")
            n += 2
            steps.append({"op": "ask", "kind": kind, "asked": asked, "about": about, "how": kind == "config" and rng.random() < 0.5,
                          "ec": reply(rng, n - 1, asked, asked, now, "ec", 0.2), "re": reply(rng, n, asked, about, now, kind)})
    return {"known": known, "steps": steps}


def run(ctx):
    ctx.model_check("AskMC", "AskQuick.cfg" if ctx.quick else "AskThorough.cfg")
    for k in KEYS:
        world.key(k)
    cases = [rand_case(ctx.rng) for _ in range(800 if ctx.quick else 16000)]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("AskTrace", pairs)
    steps = [s for p in pairs for s in p[1]["steps"] if s["op"] == "ask"]
    ctx.count("questions", [f"{s['kind']}:{'answered' if s['obs']['ok'] else 'refused'}" for s in steps])
    ctx.count("errors", [s["obs"]["err"] for s in steps if s["obs"]["err"]])


def replay(ctx, case):
    ctx.judge("AskTrace", ctx.execute(run_case, [case]))
