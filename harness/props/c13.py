"""C13 which trust marks a verifier accepts"""
import json
from urllib.parse import parse_qs
from urllib.parse import urlparse

import world
from world import BASE
from world import CLOCK
from world import Federation

LEVEL = "model_checking"
V = "https://verifier.example.com"
IDS = {"a": "https://refeds.org/sirtfi", "b": "https://b.example.com/mark"}


def url(e):
    return f"https://{e}.example.org" if e else ""


def build(w):
    ents = {}
    for e in w["ents"]:
        md = {"federation_entity": {"federation_trust_mark_status_endpoint": url(e["id"]) + "/tms"}}
        iss, own = {}, {}
        for o in w["issuers"]:
            if o["anchor"] == e["id"]:
                iss[IDS[o["id"]]] = [url(x) for x in o.get("list", [])]
        for o in w["owners"]:
            if o["anchor"] == e["id"]:
                own[IDS[o["id"]]] = {"sub": url(o["sub"]), "jwks": world.pub(*o["keys"])}
        if iss:
            md["federation_entity"]["trust_mark_issuers"] = iss
        if own:
            md["federation_entity"]["trust_mark_owners"] = own
        ents[url(e["id"])] = {"keys": list(e["keys"]), "signer": e["signer"], "metadata": md,
                              "hints": [url(h) for h in e["hints"]] or None, "life": 86400 * 30,
                              "subs": {url(x["sub"]): {"keys": list(x["keys"]), "life": 86400 * 30}
                                       for x in w["edges"] if x["sup"] == e["id"]}}
    for a in w["fake"]:  # Not signed by the anchor, but what it says about others still is
        e = ents[url(a)]
        for x in e["subs"].values():
            x["signer"] = e["signer"]
        e["signer"], e["ec_keys"] = "z1", w["shows"]
    return Federation(ents)


def token(claims, by, sign):
    """sign: {kid, alg, tamper}"""
    kw = {}
    if sign.get("kid"):
        kw["kid"] = sign["kid"]
    if sign.get("alg"):
        kw["alg"] = sign["alg"]
    if sign.get("tamper"):
        kw["tamper"] = sign["tamper"]
    return world.sign(claims, by, typ="trust-mark+jwt", **kw)


def times(c, exp):
    if exp != -1:
        c["exp"] = BASE + exp
    return c


def claims_of(m):
    c = times({"iat": BASE + m["iat"]} if m["iat"] != -1 else {}, m["exp"])
    for k, v in (("iss", url(m["iss"])), ("sub", url(m["sub"])), ("id", IDS.get(m["id"], ""))):
        if v:
            c[k] = v
    if m["deleg"]:
        d = m["deleg"][0]
        dc = times({"iat": BASE, "iss": url(d["iss"]), "sub": url(d["sub"]), "id": IDS[d["id"]]}, d["exp"])
        c["delegation"] = token(dc, d["key"], d.get("sign", {}))
    c.update(m.get("extra", {}))
    return c


def run_case(case):
    w = case["world"]
    CLOCK.install(0)
    fed = build(w)
    current = {}

    def hook(method, u, body, headers):
        p = urlparse(u)
        if not p.path.endswith("/tms"):
            return None
        q = {k: v[0] for k, v in parse_qs(p.query).items()}
        st, m = current["status"], current["m"]
        base = u.split("/tms")[0]
        if st == "down":
            return 503, "text/plain", "down"
        right = base == url(m["iss"]) and q.get("sub") == url(m["sub"]) and q.get("trust_mark_id") == IDS.get(m["id"])
        if st == "active" and right:
            return 200, "application/json", json.dumps({"active": True})
        if st == "error":
            return 404, "application/json", json.dumps({"error": "not_found"})
        return 200, "application/json", json.dumps({"active": False})

    fed.hook = hook
    keys = {e["id"]: e["keys"] for e in w["ents"]}
    from fedservice.defaults import federation_services
    fe = world.make_entity(V, {url(a): keys[a] for a in w["known"]},
                           services=federation_services("entity_configuration", "entity_statement", "trust_mark_status"))
    steps = []
    with fed:
        try:
            for s in case["steps"]:
                if s["op"] == "tick":
                    CLOCK.now += s["d"]
                    steps.append(s)
                    continue
                m = s["m"]
                tok = token(claims_of(m), m["key"], m.get("sign", {}))
                current.update(m=m, status=s.get("status", "active"))
                if s["op"] == "verify":
                    kw = {"entity_id": url(s["eid"])} if s["eid"] else {}
                    res, err = world.outcome(fe.function.trust_mark_verifier, trust_mark=tok,
                                             trust_anchor=url(s["anchor"]), **kw)
                else:
                    res, err = world.outcome(fe.verify_trust_mark, tok, check_with_issuer=s["check"])
                want = claims_of({**m, "deleg": []})
                o = {"ok": bool(res), "same": bool(res) and all(res.get(k) == v for k, v in want.items())
                     and not set(res) - set(want) - {"delegation"}, "err": err or ""}
                steps.append({**{k: v for k, v in s.items() if k != "m"}, "obs": o,
                              "m": {**{k: m[k] for k in ("iss", "sub", "id", "iat", "exp", "by")},
                                    "deleg": [{k: d[k] for k in ("iss", "sub", "id", "exp", "by")} for d in m["deleg"]]}})
        finally:
            CLOCK.uninstall()
    return {"world": w, "steps": steps}


def signature(x, rng, others):
    """Make up how the signature is made: x['by'] becomes '' if it is not proper"""
    r = rng.random()
    x["key"] = x["by"]
    if r < 0.06:
        x["sign"], x["by"] = {"alg": "none"}, ""
    elif r < 0.12 and others:
        # pretends to be another key
        kid = rng.choice(others)
        if kid != x["by"]:
            x["sign"], x["by"] = {"kid": kid}, ""
    elif r < 0.18:
        x["sign"], x["by"] = {"tamper": {"note": "changed"}}, ""
    return x


GEN_WORLD = {
    "known": ["t"], "fake": [],
    "ents": [{"id": i, "keys": [i + "1"], "signer": i + "1", "hints": h} for i, h in
             (("t", []), ("u", []), ("i", ["t"]), ("x", ["t"]), ("j", ["u"]), ("n", ["t"]))],
    "edges": [{"sup": a, "sub": b, "keys": [k]} for a, b, k in
              (("t", "i", "i1"), ("t", "x", "x1"), ("u", "j", "j1"), ("x", "n", "x1"))],
    "owners": [{"anchor": "t", "id": "a", "sub": "o", "keys": ["o1"]}, {"anchor": "u", "id": "b", "sub": "x", "keys": ["x1"]}],
    "issuers": [{"anchor": "t", "id": "a", "list": ["i", "x"]}, {"anchor": "u", "id": "b", "list": ["j"]}]}


def rand_world(rng):
    anchors = ["t", "u"] if rng.random() < 0.7 else ["t"]
    known = rng.choice([anchors, anchors, ["t"]])
    ents, edges = [], []

    def keys(i):
        return [f"{i}{n}" for n in range(1, rng.choice([2, 2, 3]))]

    ups = []
    for i in anchors:
        ents.append({"id": i, "keys": keys(i), "signer": f"{i}1", "hints": []})
        ups.append(i)
    broken = rng.random() < 0.4
    for i in ["m", "k"][: rng.randint(0, 2)] + ["i", "j", "x"]:
        h = rng.sample(ups, rng.randint(0 if i == "x" else 1, min(2, len(ups))))
        e = {"id": i, "keys": keys(i), "hints": h}
        e["signer"] = rng.choice(e["keys"])
        ents.append(e)
        for sup in ups:
            if sup in h:
                r = rng.random()
                if broken and r < 0.15:
                    edges.append({"sup": sup, "sub": i, "keys": ["z1"]})
                elif broken and r < 0.3:
                    pass
                elif broken and r < 0.4:
                    edges.append({"sup": sup, "sub": i, "keys": [e["signer"], "z1"]})
                else:
                    edges.append({"sup": sup, "sub": i, "keys": rng.choice([e["keys"], [e["signer"]]])})
            elif rng.random() < 0.2:  # not asked for
                edges.append({"sup": sup, "sub": i, "keys": e["keys"]})
        if i in ("m", "k"):
            ups.append(i)
    owners, issuers = [], []
    for a in anchors:
        for i in IDS:
            if rng.random() < 0.7:
                owners.append({"anchor": a, "id": i, "sub": rng.choice(["o", "i"]), "keys": rng.choice([["o1"], ["o1", "o2"], ["i1"]])})
            if rng.random() < 0.8:
                issuers.append({"anchor": a, "id": i, "list": rng.sample(["i", "j", "x"], rng.randint(1, 3))})
    fake = [a for a in anchors if rng.random() < 0.08]
    return {"known": known, "fake": fake, "shows": rng.choice([["z1"], ["t1", "z1"], ["t1"]]), "ents": ents, "edges": edges, "owners": owners, "issuers": issuers}


def rand_mark(rng, w, now):
    ks = {e["id"]: e["keys"] for e in w["ents"]}
    iss = rng.choice([*ks, "i", "j", "i"])
    by = rng.choice(ks[iss]) if rng.random() < 0.7 else rng.choice(["x1", "o1", "z1", "t1", "i1", "j1", "v1"])
    m = {"iss": iss, "sub": rng.choice(["s", "r"]), "id": rng.choice(["a", "b"]), "iat": now,
         "exp": now + rng.choice([-1, 0, 5, 5, 100]) if rng.random() < 0.7 else -1, "by": by, "deleg": []}
    if m["exp"] == -1 and rng.random() < 0.3:
        m["exp"] = now + 5
    if rng.random() < 0.05:
        m[rng.choice(["iss", "sub", "id"])] = ""
    elif rng.random() < 0.03:
        m["iat"] = -1
    if rng.random() < 0.5:
        own = [o for o in w["owners"] if o["id"] == m["id"]]
        if own and rng.random() < 0.85:
            o = rng.choice(own)
            d = {"iss": o["sub"], "sub": iss, "id": m["id"] or "a", "exp": -1, "by": rng.choice(o["keys"])}
        else:
            d = {"iss": "o", "sub": iss, "id": m["id"] or "a", "exp": -1, "by": "o1"}
        if rng.random() < 0.4:
            d["exp"] = now + rng.choice([-1, 0, 3, 60])
        r = rng.random()
        if r < 0.08:
            d["sub"] = rng.choice(["i", "j", "x", "s"])
        elif r < 0.16:
            d["id"] = "b" if m["id"] == "a" else "a"
        elif r < 0.24:
            d["by"] = rng.choice(["x1", "i1", "o2", "t1"])
        elif r < 0.3:
            d["iss"] = rng.choice(["o", "x", "i"])
        m["deleg"] = [signature(d, rng, [k for o in own for k in o["keys"]])]
    if rng.random() < 0.2:
        m["extra"] = {"ref": "https://refeds.org/x", "logo_uri": "https://x.example.org/logo.png"}
    return signature(m, rng, ks.get(iss))


def run(ctx):
    ctx.model_check("TrustMarkMC", "TrustMarkQuick.cfg" if ctx.quick else "TrustMarkThorough.cfg")
    gen = ctx.generate("TrustMarkMC", "TrustMarkGen.cfg")
    rng = ctx.rng
    rng.shuffle(gen)
    for n in "t u i x j n o z m k v".split():
        for q in "12":
            world.key(n + q)
    cases = []
    gen = gen[: 600 if ctx.quick else len(gen)]
    for i in range(0, len(gen), 12):
        steps, now = [], 0
        for g in gen[i:i + 12]:
            m = g["m"]
            m["key"] = m["by"]
            for d in m["deleg"]:
                d["key"] = d["by"]
            steps.append({"op": "verify", "m": m, "anchor": "t", "eid": rng.choice(["", "s", "r"])})
        again = [dict(s, anchor=rng.choice(["t", "u"])) for s in steps[:5]]
        steps += [{"op": "tick", "d": 1}] + again + [{"op": "tick", "d": 1}] + again
        cases.append({"world": GEN_WORLD, "steps": steps})
    for _ in range(350 if ctx.quick else 4000):
        w = rand_world(rng)
        steps, now, marks = [], 0, []
        for _ in range(14):
            r = rng.random()
            if r < 0.12:
                d = rng.choice([1, 3, 5, 6, 60])
                now += d
                steps.append({"op": "tick", "d": d})
                continue
            if marks and r < 0.3:
                m = rng.choice(marks)
            else:
                m = rand_mark(rng, w, now)
                marks.append(m)
            if r < 0.7:
                steps.append({"op": "verify", "m": m, "anchor": rng.choice(["t", "t", "u", "m"]) if rng.random() < 0.3
                              else rng.choice(w["known"]), "eid": rng.choice(["", m["sub"], m["sub"], "s", "r"])})
            else:
                steps.append({"op": "entity", "m": m, "check": rng.random() < 0.6,
                              "status": rng.choice(["active", "active", "inactive", "down", "error"])})
        cases.append({"world": w, "steps": steps})
    pairs = ctx.execute(run_case, cases)
    ctx.judge("TrustMarkTrace", pairs)
    ctx.count("steps", [s["op"] + (":%s%s" % (s["obs"]["ok"], "-delegated" if s["m"]["deleg"] else "") if "obs" in s else "")
                        for p in pairs for s in p[1]["steps"]])


def replay(ctx, case):
    ctx.judge("TrustMarkTrace", ctx.execute(run_case, [case]))
