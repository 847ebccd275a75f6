"""C18 explicit registration, the server's side"""
import world
from props import applib
from props.applib import TYPES
from props.applib import flat
from props.applib import name
from props.applib import url
from world import BASE
from world import CLOCK

LEVEL = "model_checking"
SERVERS = {"rp": "openid_provider", "oc": "oauth_authorization_server"}


def request(r):
    md = applib.metadata(r["types"], {k: [x["v"] for x in r["own"] if x["t"] == k] for k in r["types"]}, url(r["sub"]), r["uris"],
                         r.get("app", [r["sub"] + "-app"]))
    if not r["good"]:
        for t in md.values():
            if "redirect_uris" in t:
                if r["bad"] == "none":
                    del t["redirect_uris"]
                elif r["bad"] == "fragment":
                    t["redirect_uris"] = t["redirect_uris"] + ["https://a.example.org/cb#frag"]
                else:
                    t["redirect_uris"] = ["custom:/cb"]
                    t["application_type"] = "web"
    claims = {"metadata": md}
    if r["hints"]:
        claims["authority_hints"] = [url(h) for h in r["hints"]]
    if r["tampered"]:
        claims["tamper"] = {"metadata": {t: {**m, "contacts": ["evil"]} for t, m in md.items()}}
    return world.statement(url(r["iss"]), url(r["sub"]), r["signer"], r["jwks"], r["exp"], iat=CLOCK.now, **claims)


def run_case(case):
    from cryptojwt.jws.jws import factory
    CLOCK.install(0)
    worlds = [case["world"]]
    fed = applib.build(case["world"])
    keys = {e["id"]: e["keys"] for e in case["world"]["ents"]}
    op = applib.server(SERVERS[case["type"]], applib.OP, {url(a): keys[a] for a in case["known"]}, [url("t")])
    srv = op[SERVERS[case["type"]]]
    fe = op["federation_entity"]
    endp = srv.get_endpoint("registration")
    ids = {}
    secrets = {}

    def cid(x):
        n = name(x) if x.startswith("https://") else ""
        return n or ids.setdefault(x, f"#{len(ids) + 1}")

    def sec(x):
        return secrets.setdefault(x, f"s{len(secrets) + 1}") if x else ""

    def uris(q):
        return [u if isinstance(u, str) else u[0] for u in q or []]

    def keys_of(k):
        kj = srv.get_attribute("keyjar")
        return sorted(world.key_name(x) for x in kj.get_issuer_keys(k) if x.kty != "oct") if k in kj.owners() else []

    def clients():
        return [{"id": cid(k), "md": applib.values(v), "uris": uris(v.get("redirect_uris")),
                 "keys": keys_of(k), "secret": sec(v.get("client_secret"))} for k, v in sorted(srv.context.cdb.items())]

    steps = []
    with fed:
        try:
            for s in case["steps"]:
                s = dict(s)
                if s["op"] == "register":
                    s["req"] = {"app": [s["req"]["sub"] + "-app"], **s["req"]}
                if s["op"] == "tick":
                    CLOCK.now += s["d"]
                elif s["op"] == "prio":
                    fe.context.tr_priority = [url(a) for a in s["prio"]]
                elif s["op"] == "change":
                    worlds.append(s["world"])
                    fed.ents = applib.build(s["world"]).ents
                    s["world"] = len(worlds)
                else:
                    tok = request(s["req"])
                    res, err = world.outcome(lambda: endp.process_request(endp.parse_request(tok)))
                    msg = (res or {}).get("response_msg")
                    o = {"ok": bool(msg), "err": err or "", "cid": "", "anchor": "", "md": [], "iss": "", "sub": "", "aud": "",
                         "sig": False, "exp": 0, "private": False, "secret": ""}
                    if msg:
                        j = factory(msg)
                        p = j.jwt.payload()
                        md = p.get("metadata", {}).get(TYPES[case["type"]], {})
                        aud = p.get("aud")
                        aud = aud if isinstance(aud, list) else [aud]
                        o.update(cid=cid(md.get("client_id", "")), anchor=name(p.get("trust_anchor_id", "")),
                                 md=applib.values(md), iss=name(p["iss"]), sub=name(p["sub"]),
                                 aud=name(aud[0]) if len(aud) == 1 else "?", exp=p["exp"] - BASE,
                                 private=any("d" in k or "k" in k for k in p.get("jwks", {}).get("keys", [])),
                                 secret=sec(md.get("client_secret")))
                        from cryptojwt import KeyJar
                        kj = KeyJar()
                        kj.import_jwks({"keys": [world.rsa("op").serialize(private=False)]}, "op")
                        o["sig"] = not world.outcome(j.verify_compact, msg, keys=kj.get_issuer_keys("op"))[1]
                    s["obs"] = o
                    s["clients"] = clients()
                steps.append(s)
        finally:
            CLOCK.uninstall()
    return {"type": case["type"], "newid": case["type"] == "oc", "worlds": [applib.trace_world(w, case["known"]) for w in worlds],
            "steps": steps}


def rand_request(rng, w, typ, now, evil, last):
    e = rng.choice([x for x in w["ents"] if x["leaf"]])
    r = {"iss": e["id"], "sub": e["id"], "signer": e["signer"], "jwks": list(e["keys"]), "hints": list(e["hints"]),
         "types": list(e["types"]), "own": [{"t": t, "v": f"o{rng.randrange(5)}"} for t in e["types"]],
         "exp": now + rng.choice([100, 1000, 86400]), "uris": [f"https://{e['id']}.example.org/cb{rng.randrange(3)}"],
         "app": rng.choice([[e["id"] + "-app"], [e["id"] + "-app"], [e["id"] + "-app2"], [e["id"] + "-app~2"], []]), "tampered": False, "good": True, "bad": ""}
    if rng.random() < 0.1:
        r["hints"] = rng.sample(r["hints"], rng.randint(1, len(r["hints"])))
    if rng.random() < evil:
        k = rng.randrange(8)
        if k == 0:
            r["iss"] = rng.choice([x["id"] for x in w["ents"] if x["id"] != e["id"]] + ["x"])
        elif k == 1:
            r.update(signer="z1", jwks=rng.choice([["z1"], [*r["jwks"], "z1"], r["jwks"]]))
        elif k == 2:
            o = rng.choice(w["ents"])
            r.update(signer=o["signer"], jwks=rng.choice([o["keys"], [*r["jwks"], *o["keys"]]]))
        elif k == 3:
            r["exp"] = now - rng.choice([1, 1, 50, 1000])
        elif k == 4:
            r["tampered"] = True
        elif k == 5:
            r.update(good=False, bad=rng.choice(["none", "fragment", "custom"]))
            if r["bad"] == "none":
                r["uris"] = []
                # plain OAuth2 client metadata need not have any
                r["good"] = not r["types"] or "oc" in r["types"]
        elif k == 6:
            r["hints"] = rng.choice([[], ["x"], [e["id"]], ["a", "b"], rng.sample([x["id"] for x in w["ents"]], 1)])
        else:
            r["sub"] = r["iss"] = rng.choice([x["id"] for x in w["ents"]] + ["x"])
    return r


def rand_case(rng):
    typ = rng.choice(["rp", "rp", "oc"])
    types = [[typ], [typ], [typ], [typ, "fe"], ["fe", typ]]
    w = applib.rand_world(rng, rng.random() < 0.3, ["a", "b"], types)
    anchors = [e["id"] for e in w["ents"] if e["id"] in "tu"]
    known = rng.choice([anchors, anchors, anchors[:1]])
    steps, now = [], 0
    change = rng.random() < 0.2
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < 0.2:
            steps.append({"op": "tick", "d": rng.choice([1, 50, 100, 101, 300, 700, 86400])})
            now += steps[-1]["d"]
        elif r < 0.28:
            steps.append({"op": "prio", "prio": rng.sample(["t", "u"], rng.randint(0, 2))})
        elif r < 0.35 and change:
            steps.append({"op": "change", "world": applib.rand_change(rng, w)})
        else:
            steps.append({"op": "register", "req": rand_request(rng, w, typ, now, 0.45, steps)})
    steps.append({"op": "register", "req": rand_request(rng, w, typ, now, 0, steps)})
    return {"type": typ, "world": w, "known": known, "steps": steps}


def run(ctx):
    ctx.model_check("RegisterMC", "RegisterQuick.cfg" if ctx.quick else "RegisterThorough.cfg")
    applib.make_keys()
    cases = [rand_case(ctx.rng) for _ in range(500 if ctx.quick else 9000)]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("RegisterTrace", pairs)
    ctx.count("steps", [s["op"] + (":%s" % s["obs"]["ok"] if "obs" in s else "") for p in pairs for s in p[1]["steps"]])
    ctx.count("errors", [s["obs"]["err"] for p in pairs for s in p[1]["steps"] if s.get("obs", {}).get("err")])


def replay(ctx, case):
    ctx.judge("RegisterTrace", ctx.execute(run_case, [case]))
