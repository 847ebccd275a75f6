"""C14 critical extensions"""
import world
from world import BASE
from world import CLOCK
from props.chainlib import SELF

LEVEL = "model_checking"
TA = "https://ta.example.net"
VALS = {"subset_of": ["a", "b"], "superset_of": ["a"], "one_of": ["a", "b"], "add": ["a"],
        "value": "a", "default": "a", "essential": True}


def claims_of(s, etype="openid_relying_party"):
    res = {}
    for c in s["claims"]:
        if c not in ("sub", "iss", "metadata", "metadata_policy", "crit", "policy_language_crit"):
            res[c] = s.get("values", {}).get(c, "something")
    if s["hascrit"]:
        res["crit"] = s["crit"]
    if s["hasplc"]:
        res["policy_language_crit"] = s["plc"]
    if s["ops"]:
        res["metadata_policy"] = {}
        for i, op in enumerate(s["ops"]):
            et = s.get("etypes", [etype])[i % len(s.get("etypes", [etype]))]
            claim = f"c{i % s.get('nclaims', 9)}"
            res["metadata_policy"].setdefault(et, {}).setdefault(claim, {})[op] = VALS.get(op, ["z"])
    return res


def abstract(s):
    return {k: s[k] for k in ("claims", "hascrit", "crit", "ops", "hasplc", "plc")}


def run_case(case):
    CLOCK.install(0)
    try:
        if case["op"] == "message":
            from fedservice.message import EntityStatement
            s = case["sts"][0]
            payload = {"iss": "https://a.example.org", "sub": "https://b.example.org",
                       "iat": BASE, "exp": BASE + 3600, "jwks": {"keys": []}, **claims_of(s)}
            kw = {}
            if case["known"] or case.get("explicit"):
                kw["known_extensions"] = case["known"]
            if case["knownops"] or case.get("explicit"):
                kw["known_policy_extensions"] = case["knownops"]

            def go():
                EntityStatement(**payload).verify(**kw)
                return True

            ok, err = world.outcome(go)
        else:
            fe = world.make_entity(SELF, {TA: ["TA-1"]})
            iss, signer = TA, "TA-1"
            toks = []
            n = len(case["sts"])
            for i, s in enumerate(case["sts"]):
                sub = f"https://e{i}.example.org" if i < n - 1 else iss
                k = f"k{i}" if i < n - 1 else signer
                toks.append(world.statement(iss, sub, signer, [k], 3600, **claims_of(s)))
                iss, signer = sub, k
            from fedservice.entity.function import verify_trust_chains
            tcs, err = world.outcome(verify_trust_chains, fe, [toks])
            ok = bool(tcs)
        return {"steps": [{"op": case["op"], "sts": [abstract(s) for s in case["sts"]],
                           "known": case["known"], "knownops": case["knownops"],
                           "ok": bool(ok), "err": err or ""}]}
    finally:
        CLOCK.uninstall()


PLAIN = dict(claims=[], hascrit=False, crit=[], ops=[], hasplc=False, plc=[])
NAMES = ["x1", "x2", "x3", "source_endpoint", "crit_ext", "sub2"]
OPS = ["subset_of", "one_of", "superset_of", "add", "value", "default", "essential",
       "regexp", "one_of_each", "o3", "o4"]


def rand_st(rng):
    s = dict(PLAIN)
    names = rng.sample(NAMES, rng.randint(0, 4))
    s["claims"] = names
    s["values"] = {n: rng.choice(["v", 1, {"a": "b"}, ["x"], True, 7]) for n in names}
    if rng.random() < 0.6:
        s["hascrit"] = True
        pool = NAMES + ["sub", "metadata_policy", "jwks", "absent"]
        s["crit"] = rng.sample(pool, rng.randint(0 if rng.random() < 0.2 else 1, 4))
    s["ops"] = rng.sample(OPS, rng.randint(0, 5))
    s["etypes"] = rng.sample(["openid_relying_party", "openid_provider", "federation_entity",
                              "oauth_client"], rng.randint(1, 3))
    s["nclaims"] = rng.randint(1, 4)
    if rng.random() < 0.6:
        s["hasplc"] = True
        s["plc"] = rng.sample(OPS + ["absent_op"], rng.randint(0 if rng.random() < 0.2 else 1, 4))
    return s


def run(ctx):
    ctx.model_check("CriticalMC", "CriticalQuick.cfg")
    gen = ctx.generate("CriticalMC", "CriticalGen.cfg")
    rng = ctx.rng
    rng.shuffle(gen)
    n = 2500 if ctx.quick else 30000
    cases = []
    for g in gen[: 6000 if ctx.quick else len(gen)]:
        cases.append({"op": "message", "sts": [g["st"]], "known": g["known"],
                      "knownops": g["knownops"], "explicit": rng.random() < 0.5})
    for g in gen[: n]:
        # in a chain, at any place
        k = rng.randint(2, 4)
        sts = [dict(PLAIN) for _ in range(k)]
        sts[rng.randrange(k)] = g["st"]
        cases.append({"op": "chain", "sts": sts, "known": [], "knownops": []})
    for _ in range(n):
        cases.append({"op": "message", "sts": [rand_st(rng)], "known": rng.sample(NAMES, rng.randint(0, 3)),
                      "knownops": rng.sample(OPS[7:], rng.randint(0, 3)), "explicit": rng.random() < 0.5})
        k = rng.randint(2, 5)
        sts = [dict(PLAIN, claims=rng.sample(NAMES, rng.randint(0, 2))) for _ in range(k)]
        sts[rng.randrange(k)] = rand_st(rng)
        cases.append({"op": "chain", "sts": sts, "known": [], "knownops": []})
    pairs = ctx.execute(run_case, cases)
    ctx.judge("CriticalTrace", pairs)
    ctx.count("outcomes", [f"{p[1]['steps'][0]['op']}:{p[1]['steps'][0]['ok']}" for p in pairs])


def replay(ctx, case):
    ctx.judge("CriticalTrace", ctx.execute(run_case, [case]))
