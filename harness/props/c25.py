"""C25 entities built in the same process"""
import copy
import os
import subprocess
import sys

import core
import world
from props import applib
from props.applib import name
from props.applib import url
from world import CLOCK

LEVEL = "model_checking"
MARK = "https://refeds.org/"
LIVES = {"m1": 3600, "m2": 0, "m3": 86400}


def pool(case):
    """The objects that entities are built from. Each is given to many of them."""
    from fedservice.defaults import federation_endpoints
    from fedservice.defaults import federation_functions
    from fedservice.defaults import federation_services
    p = case["pool"]
    spec = {"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity",
            "kwargs": {"trust_mark_specification": {}, "endpoint": {}}}
    own = {"class": "fedservice.trust_mark_entity.entity.SelfSignedTrustMarkEntity",
           "kwargs": {"trust_mark_specification": {MARK + m: {"ref": MARK} for m in LIVES}}}
    for m, life in LIVES.items():
        spec["kwargs"]["trust_mark_specification"][MARK + m] = {"lifetime": life, "ref": MARK} if life else {"ref": MARK}
    for n in ("trust_mark", "trust_mark_list", "trust_mark_status"):
        spec["kwargs"]["endpoint"][n] = copy.deepcopy(federation_endpoints(n)[n])
    return {
        "eps": [list(x) if i % 2 else federation_endpoints(*x) for i, x in enumerate(p["eps"])],
        "srv": [list(x) if i % 2 else federation_services(*x) for i, x in enumerate(p["srv"])],
        "fun": [list(x) for x in p["fun"]],
        "anchors": [{url(a): world.pub(a + "1") for a in x} for x in p["anchors"]],
        "hints": [[url(h) for h in x] for x in p["hints"]],
        "marks": [list(x) for x in p["marks"]],
        "subs": [{url(s): {"jwks": world.pub(s + "1"), "entity_types": ["federation_entity"]} for s in x} for x in p["subs"]],
        "pols": [{url(s): {"metadata_policy": {"federation_entity": {"organization_name": {"value": s}}}} for s in x} for x in p["pols"]],
        "org": [{"organization_name": x} for x in p["org"]],
        "delta": [{"function": {"trust_chain_collector": {"allowed_delta": x}}} for x in p["delta"]],
        "verify": [{"verify": x, "timeout": 1} for x in p["verify"]],
        "tm": [spec], "own": [own],
        "type": [{"openid_relying_party": {"class": "fedservice.appclient.ClientEntity", "kwargs": {
            "config": {"redirect_uris": ["https://x.example.org/cb"], "client_type": "oidc", "preference": {"contacts": ["me"]}},
            "services": {"authorization": {"class": "fedservice.appclient.oidc.authorization.Authorization"}},
            "entity_type": "openid_relying_party", "key_conf": applib.EC_KEYS}}}],
    }


WHAT = {"eps": "endpoints", "srv": "services", "fun": "functions", "anchors": "trust_anchors", "hints": "authority_hints",
        "marks": "trust_marks", "subs": "subordinate", "pols": "metadata_policy", "org": "preference", "delta": "init_kwargs",
        "verify": "httpc_params", "tm": "trust_mark_entity", "own": "self_signed_trust_mark_entity", "type": "entity_type"}


def build(i, use, objs):
    from fedservice.utils import make_federation_combo
    from fedservice.utils import make_federation_entity
    args = {WHAT[k]: objs[k][n] for k, n in use.items() if n >= 0}
    make = make_federation_combo if "entity_type" in args else make_federation_entity
    return make(url(i), key_config=applib.EC_KEYS, **args)


def mark_name(m):
    if "." not in m:
        return m
    from cryptojwt.jws.jws import factory
    p = factory(m).jwt.payload()
    return p["id"][len(MARK):] + "@" + name(p["sub"])


def observe(x, kids):
    from cryptojwt.jws.jws import factory
    from fedservice.entity.utils import get_federation_entity
    fe = get_federation_entity(x)
    me = fe.entity_id
    parts = [*fe.server.endpoint.values(), *fe.client.service.db.values(),
             *[v for k, v in vars(fe.function).items() if hasattr(v, "upstream_get") and k != "upstream_get"]]
    funs = sorted(k for k, v in vars(fe.function).items() if hasattr(v, "upstream_get"))
    coll = fe.function.trust_chain_collector
    e = fe.get_endpoint("entity_configuration")
    ec = factory(e.process_request(e.parse_request({}))["response"]).jwt.payload()
    md = ec["metadata"]["federation_entity"]
    published = {k: v for k, v in md.items() if k.endswith("_endpoint")}
    units = [fe] if x is fe else [fe, x, x["openid_relying_party"]]
    life = []
    tme = getattr(fe.server, "trust_mark_entity", None)
    if tme:
        for m in LIVES:
            tok, err = world.outcome(tme.create_trust_mark, MARK + m, url("s"))
            p = factory(tok).jwt.payload() if tok else {}
            life.append({"id": m, "life": p.get("exp", p.get("iat")) - p["iat"] if p else -1})
    own = {k.kid for k in fe.keyjar.get_issuer_keys("")}
    o = {"eps": sorted(fe.server.endpoint), "srv": sorted(fe.client.service.db), "fun": funs,
         "anchors": sorted(name(a) for a in coll.trust_anchors), "hints": [name(h) for h in fe.get_authority_hints()],
         "marks": [mark_name(m) for m in fe.context.get_trust_marks()], "subs": sorted(name(s) for s in fe.server.subordinate),
         "pols": sorted(name(s) for s in fe.server.policy), "org": md.get("organization_name", ""), "delta": coll.allowed_delta,
         "verify": sorted({u.httpc_params["verify"] for u in units}), "life": life, "keys": sorted(own - kids),
         # Whom its parts belong to, whose keys it has and whom its endpoints belong to
         "owners": sorted({name(get_federation_entity(p).entity_id) for p in parts} | {name(u.entity_id) for u in units}
                          | {name(ec["iss"]), name(ec["sub"])}),
         "known": sorted({name(k) for k in fe.keyjar.owners()} - {"", name(me)}),
         "hosts": sorted({name(v[:v.index("/", 8)]) for v in published.values()} | {name(me)}),
         "said": {"hints": [name(h) for h in ec.get("authority_hints", [])], "marks": [mark_name(m) for m in ec.get("trust_marks", [])],
                  "keys": sorted({k["kid"] for k in ec["jwks"]["keys"]} - kids),
                  "eps": sorted(published)},
         "listed": ["-"]}
    if "list" in fe.server.endpoint:
        lst = fe.get_endpoint("list")
        import json
        o["listed"] = sorted(name(s) for s in json.loads(lst.process_request(lst.parse_request({}))["response_msg"]))
    return o


LOAD = """
import sys; sys.path[:0] = sys.argv[2:]
import fs_shim, importlib
importlib.import_module(sys.argv[1])
"""


def modules():
    root = os.path.join(core.SRC, "fedservice")
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), core.SRC)[:-3].replace(os.sep, ".")
                yield m[:-len(".__init__")] if m.endswith(".__init__") else m


def load(m):
    """Whether a part of the package can be the first that is used"""
    r = subprocess.run([sys.executable, "-B", "-c", LOAD, m, os.path.join(core.VERIF, "harness", "shim"), core.SRC], capture_output=True, text=True,
                       timeout=100)
    return {"op": "load", "e": m, "err": "" if r.returncode == 0 else r.stderr[-600:], "after": []}


def run_case(case):
    if "load" in case:
        return {"steps": [load(m) for m in case["load"]]}
    CLOCK.install(0)
    try:
        objs = pool(case)
        ents, kids, steps = {}, {}, []
        for s in case["steps"]:
            s = dict(s)
            i, err = s["e"], None
            if s["op"] == "build":
                ents[i], err = world.outcome(build, i, s["use"], objs)
                if err is None:
                    fe = ents[i].get_federation_entity()
                    world.give_key(fe, world.rsa(i + "-rsa"))
                    kids[i] = {k.kid for k in fe.keyjar.get_issuer_keys("")}
                else:
                    del ents[i]
                s["conf"] = {k: case["pool"].get(k, [[]])[n] if n >= 0 else None for k, n in s["use"].items()}
                c = s.pop("conf")
                s["conf"] = {k: c.get(k) or [] for k in ("eps", "srv", "fun", "anchors", "hints", "marks", "subs", "pols")}
                s["conf"].update(org=c["org"] or "", delta=c["delta"] or 0, verify=c["verify"],
                                 life=[{"id": m, "life": n} for m, n in LIVES.items()] if s["use"]["tm"] >= 0 else [])
            elif i in ents:
                fe = ents[i].get_federation_entity()
                x = s["x"]

                def go():
                    if s["op"] == "anchor":
                        fe.function.trust_chain_collector.add_trust_anchor(url(x), world.pub(x + "1"))
                    elif s["op"] == "mark":
                        fe.server.self_signed_trust_mark_entity(MARK + x)
                    elif s["op"] == "sub":
                        fe.server.subordinate[url(x)] = {"jwks": world.pub(x + "1")}
                    elif s["op"] == "unsub":
                        fe.server.subordinate.pop(url(x), None)
                    elif s["op"] == "policy":
                        fe.server.policy[url(x)] = {"metadata_policy": {}}
                    elif s["op"] == "key":
                        world.give_key(fe, world.key(x))
                    elif s["op"] == "delta":
                        fe.function.trust_chain_collector.allowed_delta = x
                _, err = world.outcome(go)
                if s["op"] == "mark":
                    s["x"] = x + "@" + i
            s["err"] = err or ""
            s["after"] = []
            for k, v in ents.items():
                o, e2 = world.outcome(observe, v, kids[k])
                s["after"].append({"e": k, "bad": e2 or "", **(o or {})})
            steps.append(s)
        return {"steps": steps}
    finally:
        CLOCK.uninstall()


def rand_case(rng):
    def some(xs, n=3):
        return rng.sample(xs, rng.randint(0, min(n, len(xs))))
    p = {"eps": [["entity_configuration", *some(["fetch", "list", "resolve", "who"])] for _ in "123"],
         "srv": [["entity_configuration", "entity_statement", *some(["resolve", "list", "trust_mark_status", "trust_mark"])] for _ in "123"],
         "fun": [["trust_chain_collector", "verifier", "policy", "trust_mark_verifier"], ["trust_chain_collector", "verifier", "policy"]],
         "anchors": [rng.sample("tuv", rng.randint(1, 2)) for _ in "12"],
         "hints": [rng.sample("tumn", rng.randint(1, 2)) for _ in "12"], "marks": [[f"g{k}" for k in range(rng.randint(1, 2))] for _ in "12"],
         "subs": [rng.sample("wxyz", rng.randint(1, 2)) for _ in "12"], "pols": [rng.sample("wxyz", rng.randint(1, 2)) for _ in "12"],
         "org": ["Org 1", "Org 2"], "delta": [100, 0 or 200], "verify": [False, True, False], "tm": [0], "own": [0], "type": [0]}
    steps, ids, has = [], ["a", "b", "c", "d"], {}
    for _ in range(rng.randint(4, 10)):
        if not has or (rng.random() < 0.45 and len(has) < len(ids)):
            i = ids[len(has)]
            use = {k: rng.choice([-1, *range(len(v))]) for k, v in p.items()}
            use["verify"] = rng.randrange(3)
            use["own"] = rng.choice([0, 0, -1])
            use["type"] = rng.choice([0, -1])
            # or nothing but what everyone has
            if rng.random() < 0.3:
                use = {k: -1 if k not in ("verify", "own") else n for k, n in use.items()}
            steps.append({"op": "build", "e": i, "use": use})
            has[i] = use
        else:
            i = rng.choice(sorted(has))
            op = rng.choice(["anchor", "mark", "sub", "unsub", "policy", "key", "delta", "anchor", "mark"])
            if op == "mark" and has[i]["own"] < 0:
                continue
            x = {"anchor": rng.choice("tuvo"), "mark": rng.choice(sorted(LIVES)), "sub": rng.choice("wxyzq"), "unsub": rng.choice("wxyz"),
                 "policy": rng.choice("wxyzq"), "key": f"key{rng.randrange(3)}", "delta": rng.choice([50, 60])}[op]
            steps.append({"op": op, "e": i, "x": x})
    return {"pool": p, "steps": steps}


def run(ctx):
    ctx.model_check("BuildMC", "BuildQuick.cfg" if ctx.quick else "BuildThorough.cfg")
    for k in ["t1", "u1", "v1", "o1", "w1", "x1", "y1", "z1", "q1", "key0", "key1", "key2"]:
        world.key(k)
    for i in "abcd":
        world.rsa(i + "-rsa")
    cases = [rand_case(ctx.rng) for _ in range(300 if ctx.quick else 6000)] + [{"load": [m]} for m in modules()]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("BuildTrace", pairs)
    ctx.count("steps", [s["op"] for p in pairs for s in p[1]["steps"]])
    ctx.count("errors", [s["err"] for p in pairs for s in p[1]["steps"] if s.get("err")])


def replay(ctx, case):
    ctx.judge("BuildTrace", ctx.execute(run_case, [case]))
