"""C23 finding the entities of a federation"""
import json

from cryptojwt.key_bundle import KeyBundle

import world
from props.applib import name
from props.applib import url
from world import BASE
from world import CLOCK
from world import ES_TYPE
from world import NET
from world import WELL_KNOWN

LEVEL = "model_checking"
AUTH = "tuijk"
LEAVES = "abcd"
TYPES = ["openid_provider", "openid_credential_issuer"]
IDS = ["https://mark.example.com/1", "https://mark.example.com/2"]
CRED = {"PID": {"credential_definition": {"type": ["VC", "PID"]}}, "XX": {"credential_definition": {"type": ["XX"]}}}


def mark(m, e):
    now = CLOCK.now + BASE
    iss = "m" if m["kind"] != "unknown" else "q"
    payload = {"iss": url(iss), "sub": url(e if m["kind"] != "othersub" else "z"), "id": IDS[int(m["id"]) - 1], "iat": now - 10,
               "exp": now + (1000000 if m["kind"] != "expired" else -5), "jti": m["kind"]}
    return world.sign(payload, "m1" if m["kind"] not in ("forged", "unknown") else "z1", typ="trust-mark+jwt")


def build(case):
    ents = {}
    for e, c in case["ents"].items():
        md = {}
        for ty in c["types"]:
            md[ty] = {"issuer": url(e)}
        if "openid_credential_issuer" in md:
            md["openid_credential_issuer"]["credentials_supported"] = [CRED[x] for x in c["cred"]]
        if e == "m":
            md["federation_entity"] = {"federation_trust_mark_status_endpoint": url("m") + "/status"}
        elif c["fe"]:
            md["federation_entity"] = {"organization_name": e}
        ents[url(e)] = {"keys": [e + "1"], "hints": [url(h) for h in c["hints"]] or None, "metadata": md, "leaf": e not in AUTH, "subs": {},
                        "extra": {"trust_marks": [mark(m, e) for m in c["marks"]]} if c["marks"] else {}}
    return ents


def run_case(case):
    CLOCK.install(0)
    fed = world.Federation(build(case))
    bad = {(b["p"], b["c"]): b["how"] for b in case["bad"]}
    pol = {(b["p"], b["c"]): b["v"] for b in case["pol"]}
    # superiors that have not registered what types their subordinates are of
    fed.hide = {(url(p), url(c)) for p, c in case["hide"]}

    def add(p, c):
        how = bad.get((p, c))
        s = {"keys": [c + "1"]}
        if how == "wrongkeys":
            s["keys"] = ["y1"]
        elif how == "forged":
            s["signer"] = "z1"
        elif how == "expired":
            s["life"] = -100
        if (p, c) in pol:
            s["metadata_policy"] = {"openid_credential_issuer": {"credentials_supported": {"value": [CRED[pol[p, c]]]}}}
        fed.ents[url(p)]["subs"][url(c)] = s

    for p, c in case["edges"]:
        add(p, c)

    def hook(method, u, body, headers):
        base, _, q = u.partition("?")
        for e, c in case["ents"].items():
            if base == url(e) + WELL_KNOWN and c["ec"]:
                if c["ec"] == "404":
                    return 404, "text/plain", "no"
                if c["ec"] == "down":
                    raise ConnectionError("down")
                now = CLOCK.now
                types = {ty: {"issuer": url(e), "credentials_supported": list(CRED.values())} for ty in TYPES}
                md = {**types, "federation_entity": {"federation_list_endpoint": url("z") + "/list", "federation_fetch_endpoint": url("z") + "/fetch"}}
                who = {"forged": ("z1", e, e), "othersub": (e + "1", e, case["victim"] if case["victim"] != e else "t"), "expired": (e + "1", e, e)}[c["ec"]]
                return 200, ES_TYPE, world.statement(url(who[1]), url(who[2]), who[0], [who[0]], now + (3600 if c["ec"] != "expired" else -30),
                                                     iat=now - 100, metadata=md, authority_hints=[url(h) for h in c["hints"]] or [url("t")])
            if base == url(e) + "/list" and c["list"]:
                if c["list"] == "down":
                    raise ConnectionError("down")
                return {"404": (404, "text/plain", "no"), "400": (400, "application/json", json.dumps({"error": "bad", "error_description": "no"})),
                        "error": (200, "application/json", json.dumps({"error": "bad"})), "dict": (200, "application/json", json.dumps({url("a"): url("b")})),
                        "junk": (200, "text/html", "<html>")}[c["list"]]
            if base == url(e) + "/fetch" and q:
                import urllib.parse
                sub = urllib.parse.parse_qs(q).get("sub", [""])[0]
                if bad.get((e, name(sub))) == "404":
                    return 404, "text/plain", "no"
        if base == url("z") + "/list":
            return 200, "application/json", json.dumps([url(x) for x in LEAVES])
        if base == url("m") + "/status":
            from urllib.parse import parse_qs
            qs = parse_qs(q or body or "")
            sub, mid = name(qs.get("sub", [""])[0]), qs.get("id", qs.get("trust_mark_id", [""]))[0]
            ms = [m for m in case["ents"].get(sub, {}).get("marks", []) if IDS[int(m["id"]) - 1] == mid]
            return 200, "application/json", json.dumps({"active": any(m["kind"] == "good" for m in ms)})
        return None

    fed.hook = hook
    with fed:
        try:
            me = case["me"]
            fe = world.make_entity(url(me), {url(a): [a + "1"] for a in case["anchors"]},
                                   endpoints=["entity_configuration", "fetch", "list", "who"],
                                   services=["entity_configuration", "entity_statement", "list", "trust_mark_status"])
            if me in AUTH and me not in case["anchors"]:
                own = KeyBundle()
                own.set([world.key(me + "1")])
                fe.keyjar[url(me)] = type(fe.keyjar[url(me)])()
                fe.keyjar.add_kb(url(me), own)
            mine = sorted(k.kid for k in fe.keyjar.get_issuer_keys(url(me)))
            who = fe.get_endpoint("who")
            steps = []
            for s in case["steps"]:
                s = dict(s)
                if s["op"] == "tick":
                    CLOCK.now += s["d"]
                elif s["op"] == "join":
                    add(s["p"], s["c"])
                elif s["op"] == "leave":
                    fed.ents[url(s["p"])]["subs"].pop(url(s["c"]), None)
                else:
                    if s["op"] == "who":
                        req = {"entity_type": s["type"], "credential_type": s["cred"], "trust_mark_id": IDS[int(s["mark"]) - 1] if s["mark"] else ""}
                        res, err = world.outcome(who.process_request, req, trust_anchor=url(s["anchor"]) if s["anchor"] else "")
                        if err is None:
                            res = res["response_args"]["entities_to_use"]
                    else:
                        res, err = world.outcome(fe.trawl, url(s["sup"]), url(s["root"]), s["type"])
                    keys = all(sorted(k.kid for k in fe.keyjar.get_issuer_keys(url(a))) == [a + "1"] for a in case["anchors"] if a != me)
                    keys = keys and (me in case["anchors"] or sorted(k.kid for k in fe.keyjar.get_issuer_keys(url(me))) == mine)
                    keys = keys and len(fe.keyjar.get_issuer_keys("")) == 1
                    s["obs"] = {"found": [name(e) for e in res or []], "err": err or "", "keys": keys}
                steps.append(s)
            return {k: case[k] for k in ("ents", "anchors", "edges", "bad", "pol", "hide", "me")} | {"steps": steps}
        finally:
            CLOCK.uninstall()


def rand_case(rng):
    auth = "t" + "".join(x for x in "uijk" if rng.random() < 0.7)
    leaves = LEAVES[:rng.randint(1, 4)]
    ents, edges = {}, []
    calm = rng.random() < 0.5
    for e in auth + leaves + "m":
        ents[e] = {"hints": [], "types": [], "cred": [], "marks": [], "ec": "", "list": "", "fe": rng.random() < 0.5}
        if e in leaves or rng.random() < 0.2:
            ents[e]["types"] = sorted(rng.sample(TYPES, rng.choice([1, 1, 2, 0])))
        if "openid_credential_issuer" in ents[e]["types"]:
            ents[e]["cred"] = sorted(rng.sample(["PID", "XX"], rng.choice([0, 1, 1, 2])))
        if e not in auth and e != "m":
            ents[e]["marks"] = [{"id": rng.choice("12"), "kind": rng.choice(["good", "good", "good", "revoked", "forged", "expired", "othersub", "unknown"])}
                                for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            good = {m["id"] for m in ents[e]["marks"] if m["kind"] == "good"}
            for m in ents[e]["marks"]:   # one status for every trust mark of an entity
                if m["id"] in good and m["kind"] == "revoked":
                    m["kind"] = "good"
    loop = rng.random() < 0.3
    for c in auth + leaves + "m":
        sups = [p for p in auth if p != c and (loop or p == "t" or c not in auth or auth.index(p) < auth.index(c))]
        if c == "t":     # an anchor that is listed as subordinate
            if loop and sups and rng.random() < 0.3:
                edges.append([rng.choice(sups), c])
            continue
        if c == "m":
            sups = ["t"]
        if not sups:
            continue
        n = rng.choice([1, 1, 2, 2, 3]) if c != "m" else 1
        ents[c]["hints"] = sorted(set(rng.choice(sups) for _ in range(n)))
        for p in ents[c]["hints"]:
            if calm or rng.random() < 0.9:
                edges.append([p, c])
        if not calm and rng.random() < 0.15:
            p = rng.choice(sups)
            if [p, c] not in edges:
                edges.append([p, c])
    bad = []
    for _ in range(0 if calm else rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.35:
            ents[rng.choice(auth + leaves)]["ec"] = rng.choice(["404", "forged", "othersub", "expired", "down"])
        elif r < 0.7:
            ents[rng.choice(auth)]["list"] = rng.choice(["404", "400", "error", "dict", "junk", "down"])
        else:
            p, c = rng.choice(edges)
            if not any(b["p"] == p and b["c"] == c for b in bad):
                bad.append({"p": p, "c": c, "how": rng.choice(["404", "wrongkeys", "forged", "expired"])})
    anchors = ["t"] + (["u"] if "u" in auth and rng.random() < 0.3 else [])
    # somebody above an anchor says it has other keys
    for p, c in edges:
        if c in anchors and rng.random() < 0.3 and not any(b["p"] == p and b["c"] == c for b in bad):
            bad.append({"p": p, "c": c, "how": "wrongkeys"})
    pol = [{"p": p, "c": c, "v": rng.choice(["PID", "XX"])} for p, c in edges if c in leaves and rng.random() < 0.15]
    hide = [e for e in edges if rng.random() < 0.15]
    case = finish(rng, ents, edges, bad, pol, hide, anchors, leaves)
    if "i" in auth and rng.random() < 0.2:
        # the one who searches is part of the federation, and perhaps somebody says it has other keys
        case["me"] = "i"
        for p, c in edges:
            if c == "i" and rng.random() < 0.5 and not any(b["p"] == p and b["c"] == c for b in bad):
                bad.append({"p": p, "c": c, "how": "wrongkeys"})
    return case


def winding(rng):
    """Authorities that are above and below each other, where all is in order"""
    auth = ["t"] + rng.sample("uijk", rng.randint(2, 4))
    leaves = LEAVES[:rng.randint(1, 4)]
    ents = {e: {"hints": [], "types": [], "cred": [], "marks": [], "ec": "", "list": "", "fe": rng.random() < 0.5} for e in [*auth, *leaves, "m"]}
    edges = [["t", "m"]]
    for n, e in enumerate([*auth, *leaves]):
        if e == "t":
            continue
        sups = auth[:n] if e in auth else auth
        edges.append([rng.choice([sups[-1], rng.choice(sups)]), e])
    for n, e in enumerate(auth):
        for f in auth[1:n]:
            if rng.random() < 0.5:
                edges.append([e, f])
    edges = [list(e) for e in {tuple(e) for e in edges}]
    edges.sort()
    rng.shuffle(edges)
    for p, c in edges:
        ents[c]["hints"].append(p)
    for e in [*auth[1:], *leaves]:
        ents[e]["types"] = sorted(rng.sample(TYPES, rng.choice([1, 1, 2, 0])))
    hide = [e for e in edges if rng.random() < 0.4]
    return finish(rng, ents, edges, [], [], hide, ["t"], leaves)


def finish(rng, ents, edges, bad, pol, hide, anchors, leaves):
    cur = [list(e) for e in edges]
    steps = []
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if r < 0.1:
            steps.append({"op": "tick", "d": rng.choice([10, 1000, 85900])})
        elif r < 0.2 and cur:
            p, c = rng.choice(cur)
            cur.remove([p, c])
            steps.append({"op": "leave", "p": p, "c": c})
        elif r < 0.3:
            p, c = rng.choice(edges) if edges else ("t", "a")
            if [p, c] not in cur:
                cur.append([p, c])
                steps.append({"op": "join", "p": p, "c": c})
        elif r < 0.65:
            steps.append({"op": "who", "anchor": rng.choice(["t"] * 8 + [anchors[-1], "u", "v", ""]), "type": rng.choice(TYPES),
                          "cred": rng.choice(["", "", "PID", "XX"]), "mark": rng.choice(["", "", "1", "2"])})
        else:
            subs = [c for p, c in cur if p == "t"]
            if subs:
                steps.append({"op": "trawl", "sup": "t", "root": rng.choice(subs), "type": rng.choice(TYPES)})
    steps.append({"op": "who", "anchor": "t", "type": rng.choice(TYPES), "cred": "", "mark": ""})
    return {"ents": ents, "anchors": anchors, "edges": edges, "bad": bad, "pol": pol, "hide": hide, "steps": steps, "me": rng.choice("xxxt"),
            "victim": rng.choice(leaves)}


def run(ctx):
    ctx.model_check("TrawlMC", "TrawlQuick.cfg" if ctx.quick else "TrawlThorough.cfg")
    for k in AUTH + LEAVES + "myz":
        world.key(k + "1")
    cases = [(winding if n % 7 == 0 else rand_case)(ctx.rng) for n in range(420 if ctx.quick else 9000)]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("TrawlTrace", pairs)
    steps = [s for p in pairs for s in p[1]["steps"] if "obs" in s]
    ctx.count("searches", [f"{s['op']}:{len(set(s['obs']['found']))}" for s in steps])
    ctx.count("errors", [s["obs"]["err"] for s in steps if s["obs"]["err"]])


def replay(ctx, case):
    ctx.judge("TrawlTrace", ctx.execute(run_case, [case]))
