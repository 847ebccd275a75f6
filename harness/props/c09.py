"""C09 the policies of the whole chain, for each entity type"""
from props import c07
from props import policylib

LEVEL = "model_checking"
TYPES = ["openid_relying_party", "oauth_client", "federation_entity", "my_type"]
CLAIMS = ["x_a", "x_b", "x_c"]


def rand_chain(rng, gen):
    types = rng.sample(TYPES, rng.randint(1, 3))
    claims = rng.sample(CLAIMS, rng.randint(1, 3))
    how = rng.choice(["call", "call", "apply_policies", "signed"])
    n = rng.choice([1, 2, 2, 3, 3, 4])
    sts = [[] for _ in range(n)]
    sane = rng.random() < 0.75
    pols = []
    for t in types:
        for c in claims:
            if rng.random() < 0.2:
                continue
            g = rng.random()
            at = sorted(rng.sample(range(n), rng.randint(1, n)))
            if g < 0.2:
                for i in at:
                    sts[i].append({"t": t, "c": c, "kind": "md",
                                   "m": {"has": True, **policylib.rand_val(rng, policylib.ATOMS)}})
                    if sane:
                        sts[i][-1]["m"] = next(e for e in sts[at[0]] if e["t"] == t and e["c"] == c)["m"]
            elif g < 0.45 and gen:
                for i, p in zip(at, rng.choice(gen)["ps"]):
                    sts[i].append({"t": t, "c": c, "kind": "policy", "p": c07.from_spec(p)})
            else:
                p = policylib.rand_policy(rng, maxops=2)
                for i in at:
                    sts[i].append({"t": t, "c": c, "kind": "policy", "p": p})
                    p = policylib.related(rng, p)
            if not sane and rng.random() < 0.15:
                i = rng.choice(at)
                have = {e["kind"] for e in sts[i] if e["t"] == t and e["c"] == c}
                if have == {"policy"}:
                    sts[i].append({"t": t, "c": c, "kind": "md", "m": {"has": True, "many": False, "v": ["a"]}})
                elif have == {"md"}:
                    sts[i].append({"t": t, "c": c, "kind": "policy", "p": policylib.rand_policy(rng, maxops=1)})
    for st in sts:
        pols += [e["p"] for e in st if e["kind"] == "policy"]
    ectypes = [t for t in types if rng.random() < 0.8] or [types[0]]
    if rng.random() < 0.3:
        ectypes.append("other_type")
    ec = [{"t": t, "c": "x_left", "m": {"has": True, "many": False, "v": ["d"]}} for t in ectypes]
    for t in ectypes:
        for c in claims:
            if rng.random() < 0.75:
                # often something that can be accepted
                cand = [e for st in sts for e in st if e["t"] == t and e["c"] == c and e["kind"] == "policy"]
                m = {"has": True, **policylib.rand_val(rng, policylib.ATOMS)}
                if cand and rng.random() < 0.7:
                    es = [e for e in rng.choice(cand)["p"] if e["o"] not in ("essential", "value")]
                    if es:
                        e = rng.choice(es)
                        if e["o"] == "one_of":
                            m = {"has": True, "many": False, "v": [rng.choice(e["v"])]}
                        else:
                            m = {"has": True, "many": e["many"], "v": e["v"]}
                ec.append({"t": t, "c": c, "m": m})
    ask = rng.choice(["", rng.choice(ectypes)])
    kind = rng.choice(["str", "uri", "alg", "prefix"] if how == "signed" else list(policylib.WORDS))
    return {"sts": sts, "ec": ec, "ectypes": ectypes, "ask": ask, "how": how, "kind": kind,
            "twice": how == "call" and rng.random() < 0.3}


def run(ctx):
    ctx.model_check("PolicyMC", "PolicyQuick.cfg" if ctx.quick else "PolicyThorough.cfg")
    if not ctx.quick:
        ctx.model_check("PolicyMC", "PolicyDeep.cfg")
    gen = ctx.generate("PolicyMC", "PolicyGen.cfg")
    rng = ctx.rng
    cases = [rand_chain(rng, gen) for _ in range(5000 if ctx.quick else 80000)]
    pairs = policylib.judge(ctx, policylib.run_chain, cases)
    ctx.count("chains", [f"{c['how']}:{p['steps'][0]['obs']['ok']}" for c, p in pairs])


def replay(ctx, case):
    policylib.judge(ctx, policylib.run_chain, [case])
