"""C17 what a resolver answers"""
import world
from world import BASE
from world import CLOCK
from world import Federation

LEVEL = "model_checking"
TYPES = {"rp": "openid_relying_party", "op": "openid_provider", "fe": "federation_entity"}
TBACK = {v: k for k, v in TYPES.items()}


def url(e):
    return f"https://{e}.example.org" if e else ""


def name(u):
    return u[len("https://"):-len(".example.org")] if u else ""


def claims(x):
    return {TYPES[t]: {"contacts": {"add": vs}} for t, vs in x.items()}


def build(w):
    ents = {}
    for e in w["ents"]:
        md = {TYPES[t]: {"contacts": ["own-" + e["id"]]} for t in e["types"]}
        if "fe" not in e["types"]:
            md["federation_entity"] = {}
        ents[url(e["id"])] = {"keys": list(e["keys"]), "signer": e["signer"], "metadata": md,
                              "leaf": e["leaf"], "hints": [url(h) for h in e["hints"]] or None, "life": e["life"],
                              "subs": {}}
        if "fe" not in e["types"] and e["leaf"]:
            del ents[url(e["id"])]["metadata"]["federation_entity"]
    for x in w["edges"]:
        ents[url(x["sup"])]["subs"][url(x["sub"])] = {"keys": list(x["keys"]), "life": x["life"],
                                                      **({"metadata_policy": claims(x["add"])} if x["add"] else {})}
    return Federation(ents)


def tv(md, fn=lambda c: c.get("contacts", [])):
    return [{"t": TBACK.get(t, t), "v": v} for t, c in (md or {}).items() for v in sorted(set(fn(c)))]


def doc(p, hdr, known):
    return {"iss": name(p["iss"]), "sub": name(p["sub"]), "signer": hdr.get("kid", "") if known else "?",
            "jwks": [k["kid"] for k in p.get("jwks", {}).get("keys", [])], "exp": p["exp"] - BASE,
            "md": tv(p.get("metadata")) if p["iss"] == p["sub"] else [],
            "add": tv(p.get("metadata_policy"), lambda c: c["contacts"]["add"])}


def run_case(case):
    from cryptojwt.jws.jws import factory
    from fedservice.defaults import federation_endpoints
    from fedservice.entity.function import apply_policies, verify_trust_chain
    w = case["world"]
    CLOCK.install(0)
    fed = build(w)
    keys = {e["id"]: e["keys"] for e in w["ents"]}
    anchors = {url(a): keys[a] for a in case["known"]}
    me = url(case["self"])
    fe = world.make_entity(me, dict(anchors), endpoints=federation_endpoints("entity_configuration", "resolve"))
    world.give_key(fe, world.rsa("resolver"))
    steps = []
    with fed:
        try:
            for s in case["steps"]:
                s = dict(s)
                if s["op"] == "tick":
                    CLOCK.now += s["d"]
                elif s["op"] == "prefetch":
                    world.outcome(fe.client.do_request, "entity_configuration", entity_id=url(s["sub"]))
                elif s["op"] == "warm":
                    from fedservice.entity.function import get_verified_trust_chains
                    world.outcome(get_verified_trust_chains, fe, url(s["sub"]))
                elif s["op"] == "change":
                    fed.ents = build(s["world"]).ents
                    s.pop("world")
                elif s["op"] == "resolve":
                    req = {"sub": url(s["sub"]), "anchor": url(s["anchor"])}
                    if s["type"]:
                        req["type"] = TYPES[s["type"]]
                    ep = fe.server.endpoint["resolve"]

                    def ask():
                        args = ep.parse_request(req) if s.get("how") else req
                        return ep.process_request(args, **({"with_ta_ec": True} if s.get("ta") else {}))

                    CLOCK.drift = s.get("drift")
                    res, err = world.outcome(ask)
                    CLOCK.drift, s["after"] = None, CLOCK.now
                    tok = res.get("response_args") if res else None
                    o = {"ok": bool(tok), "err": err or "", "docs": [], "md": [], "exp": 0, "sig": False, "iss": "",
                         "sub": "", "same": False, "taec": False}
                    if tok:
                        _jws = factory(tok)
                        p = _jws.jwt.payload()
                        try:
                            o["sig"] = bool(_jws.verify_compact(tok, keys=fe.keyjar.get_issuer_keys("")))
                        except Exception:
                            pass
                        o.update(iss=name(p["iss"]), sub=name(p["sub"]), exp=p["exp"] - BASE, md=tv(p.get("metadata")))
                        chain = list(p.get("trust_chain", []))
                        if s.get("ta") and len(chain) > 1:
                            last = factory(chain[-1]).jwt.payload()
                            if last["iss"] == last["sub"] == url(s["anchor"]):
                                chain.pop()
                        for c in chain:
                            j = factory(c)
                            o["docs"].append(doc(j.jwt.payload(), j.jwt.headers, c in fed.by_token))
                        # Somebody else, that trusts the anchor
                        third = world.make_entity("https://third.example.net", dict(anchors))
                        ch, err = world.outcome(verify_trust_chain, third, list(reversed(chain)))
                        if ch and not err:
                            _, err = world.outcome(apply_policies, third, [ch])
                            md = {k: v for k, v in ch.metadata.items() if not s["type"] or k == TYPES[s["type"]]}
                            o["same"] = not err and md == p.get("metadata", {})
                    s["obs"] = o
                steps.append(s)
        finally:
            CLOCK.uninstall()
    return {"world": {"self": case["self"], "known": [{"id": a, "keys": keys[a]} for a in case["known"]],
                      "ents": [{k: e[k] for k in ("id", "signer", "hints", "types")} for e in w["ents"]],
                      "edges": [{k: e[k] for k in ("sup", "sub", "keys")} for e in w["edges"]]},
            "steps": steps}


LIVES = [100, 350, 400, 1000, 86400, 86400 * 3]


def adds(rng, n=None):
    return {t: [f"v{rng.randrange(9)}" for _ in range(rng.randint(1, 2))]
            for t in rng.sample(list(TYPES), rng.choice([0, 1, 1, 2]) if n is None else n)}


def rand_world(rng, broken):
    anchors = ["t", "u"] if rng.random() < 0.6 else ["t"]
    ents, edges, ups = [], [], []

    def keys(i):
        return [f"{i}{n}" for n in range(1, rng.choice([2, 2, 3]))]

    for a in anchors:
        # One anchor may be below another
        e = {"id": a, "keys": keys(a), "signer": a + "1", "hints": ups[:1] if rng.random() < 0.4 else [], "types": ["fe"],
             "leaf": False, "life": rng.choice(LIVES)}
        ents.append(e)
        edges += [{"sup": h, "sub": a, "keys": e["keys"], "life": rng.choice(LIVES), "add": adds(rng)}
                  for h in e["hints"] if not broken or rng.random() < 0.8]
        ups.append(a)
    mids = ["m", "n", "k"][: rng.randint(0, 3)]
    for i in mids + ["a", "b"]:
        leaf = i in "ab"
        hints = rng.sample(ups, rng.randint(1, min(3, len(ups))))
        e = {"id": i, "keys": keys(i), "hints": hints, "leaf": leaf, "life": rng.choice(LIVES),
             "types": rng.sample(list(TYPES), rng.randint(1, 2)) if leaf else ["fe"]}
        e["signer"] = rng.choice(e["keys"])
        ents.append(e)
        for sup in hints:
            r = rng.random()
            if broken and r < 0.12:
                continue
            edges.append({"sup": sup, "sub": i, "keys": ["z1"] if broken and r < 0.25 else e["keys"],
                          "life": rng.choice(LIVES), "add": adds(rng)})
        if not leaf:
            ups.append(i)
    return {"ents": ents, "edges": edges}


def rand_case(rng):
    broken = rng.random() < 0.3
    w = rand_world(rng, broken)
    ids = [e["id"] for e in w["ents"]]
    anchors = [i for i in ids if i in ("t", "u")]
    known = rng.choice([anchors, ["t"]])
    me = rng.choice(["t", "r", "r"])
    steps = []
    change = rng.random() < 0.25
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < 0.25:
            steps.append({"op": "tick", "d": rng.choice([1, 50, 100, 101, 300, 700, 86400])})
        elif r < 0.35:
            steps.append({"op": "prefetch", "sub": rng.choice(ids)})
        elif r < 0.42:
            steps.append({"op": "warm", "sub": rng.choice(ids)})
        elif r < 0.5 and change:
            # other policies, life times and keys, the same entities
            import copy
            w2 = copy.deepcopy(w)
            for x in w2["edges"]:
                if rng.random() < 0.4:
                    x.update(add=adds(rng), life=rng.choice(LIVES))
                if rng.random() < 0.15:
                    x["keys"] = ["z1"]
            steps.append({"op": "change", "world": w2})
        else:
            sub = rng.choice(["a", "b", *[e["id"] for e in w["ents"] if e["hints"]]])
            steps.append({"op": "resolve", "sub": sub, "anchor": rng.choice([*known, *known, *known, "u", "m"]),
                          "type": rng.choice(["", "", "rp", "op", "fe"]), "how": rng.randrange(2), "ta": rng.random() < 0.2})
            if rng.random() < 0.3:  # A second passes meanwhile
                steps[-1]["drift"] = rng.randint(0, 40)
    steps.append({"op": "resolve", "sub": "a", "anchor": rng.choice(known), "type": "", "how": 0, "ta": False})
    return {"world": w, "known": known, "self": me, "steps": steps}


def run(ctx):
    ctx.model_check("ResolveMC", "ResolveQuick.cfg" if ctx.quick else "ResolveThorough.cfg")
    for n in "t u m n k a b z".split():
        for q in "123":
            world.key(n + q)
    world.rsa("resolver")
    cases = [rand_case(ctx.rng) for _ in range(350 if ctx.quick else 7000)]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("ResolveTrace", pairs)
    ctx.count("steps", [s["op"] + (":%s" % s["obs"]["ok"] if "obs" in s else "") for p in pairs for s in p[1]["steps"]])
    ctx.count("errors", [s["obs"]["err"] for p in pairs for s in p[1]["steps"] if s.get("obs", {}).get("err")])


def replay(ctx, case):
    ctx.judge("ResolveTrace", ctx.execute(run_case, [case]))
