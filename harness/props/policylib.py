"""Policies: concrete values for abstract ones, and the calls"""
import copy

import world
from world import CLOCK
from props.chainlib import SELF

ATOMS = ["a", "b", "c", "d"]
WORDS = {
    "str": ["a", "b", "c", "d"],
    "uri": ["https://a.example.org/x", "https://b.example.org/", "urn:c", "d e"],
    "alg": ["RS256", "ES256", "none", "HS256"],
    "int": [0, 1, 17, -3],
    "mix": ["1", 1, "true", 2.5],
    "prefix": ["co", "code", "code id_token", "CODE"],
}
SETOPS = ("one_of", "subset_of", "superset_of", "add")
ALLOPS = ("value", "add", "default", "one_of", "subset_of", "superset_of", "essential")


def attempt(fn, *args):
    """(result, whether it was refused). Any other error is one in the code"""
    from fedservice.entity.function import PolicyError
    try:
        return fn(*args), False
    except PolicyError:
        return None, True


class Words:
    def __init__(self, kind):
        self.kind = kind

    def out(self, v):
        """abstract value -> concrete"""
        if v["v"] in (["true"], ["false"]) and not v["many"]:
            return v["v"] == ["true"]
        w = [self.word(x) for x in v["v"]]
        return w if v["many"] else w[0]

    def word(self, x):
        if self.kind == "dict":
            return {"x": x}
        return WORDS[self.kind][ATOMS.index(x)]

    def back(self, v):
        """concrete value -> abstract"""
        if isinstance(v, bool):
            return {"many": False, "v": ["true" if v else "false"]}
        if isinstance(v, (list, tuple, set)):
            # a value twice is a value once
            return {"many": True, "v": sorted({self.atom(x) for x in v})}
        return {"many": False, "v": [self.atom(v)]}

    def atom(self, x):
        if self.kind == "dict":
            return x["x"] if isinstance(x, dict) and "x" in x else f"?{x}"
        for i, w in enumerate(WORDS[self.kind]):
            if type(w) is type(x) and w == x:
                return ATOMS[i]
        return f"?{x}"

    def policy(self, p):
        return {e["o"]: self.out(e) for e in p}

    def policy_back(self, p):
        return [{"o": o, **self.back(v)} for o, v in sorted(p.items())]

    def md(self, m):
        return self.out(m)

    def md_back(self, container, claim):
        if claim not in container:
            return {"has": False, "many": False, "v": []}
        return {"has": True, **self.back(container[claim])}


def kind_for(case_policies, rng):
    ops = {e["o"] for p in case_policies for e in p}
    many = any(e["many"] for p in case_policies for e in p)
    kinds = list(WORDS)
    if not ops & set(SETOPS) and not many:
        kinds += ["dict", "dict"]
    return rng.choice(kinds)


# ------------------------------------------------------------------------------------ random ones

def rand_val(rng, atoms, many=None, allow_empty=False):
    many = rng.random() < 0.6 if many is None else many
    if not many:
        return {"many": False, "v": [rng.choice(atoms)]}
    return {"many": True, "v": sorted(rng.sample(atoms, rng.randint(0 if allow_empty else 1, len(atoms))))}


def rand_policy(rng, atoms=ATOMS, maxops=4):
    p = []
    for o in rng.sample(ALLOPS, rng.randint(0 if rng.random() < 0.1 else 1, maxops)):
        if o == "value" and rng.random() < 0.5:
            continue
        if o == "essential":
            p.append({"o": o, "many": False, "v": [rng.choice(["true", "false"])]})
        elif o in ("value", "default"):
            p.append({"o": o, **rand_val(rng, atoms)})
        elif o == "add":
            p.append({"o": o, **rand_val(rng, atoms, many=rng.random() < 0.9)})
        elif o == "superset_of":
            p.append({"o": o, "many": True, "v": sorted(rng.sample(atoms, rng.randint(1, 2)))})
        else:
            p.append({"o": o, "many": True, "v": sorted(rng.sample(atoms, rng.randint(max(1, len(atoms) - 2), len(atoms))))})
    if rng.random() < 0.08:
        p.append({"o": rng.choice(["regexp", "o1", "Value"]), "many": True, "v": [rng.choice(atoms)]})
    return sorted(p, key=lambda e: e["o"])


def related(rng, p, atoms=ATOMS):
    """A policy that often can be combined with p"""
    if any(e["o"] == "value" for e in p) and rng.random() < 0.4:
        # all that can be said about a value
        return [{"o": "essential", "many": False, "v": [rng.choice(["true", "false"])]}]
    q = []
    for e in p:
        r = rng.random()
        if r < 0.3:
            continue
        if r < 0.6 or e["o"] in ("value", "default") and r < 0.9:
            q.append(copy.deepcopy(e))
        elif e["o"] == "essential":
            q.append({**e, "v": ["true"]})
        elif e["o"] in SETOPS:
            v = set(e["v"]) ^ {rng.choice(atoms)}
            q.append({**e, "many": True, "v": sorted(v) or e["v"]})
        else:
            q.append({"o": e["o"], **rand_val(rng, atoms)})
    have = {e["o"] for e in q}
    for e in rand_policy(rng, atoms, 2):
        if e["o"] not in have and rng.random() < 0.4:
            q.append(e)
    return sorted(q, key=lambda e: e["o"])


# ------------------------------------------------------------------------------------------- runs

_FE = {}


def policy_function():
    if "fe" not in _FE:
        _FE["fe"] = world.make_entity(SELF, {"https://ta.example.net": ["TA-1"]})
    return _FE["fe"].function.policy


def run_combine(case):
    """case: {kind, p, q, metas}: combine and apply the combination"""
    from fedservice.entity.function.policy import combine
    from fedservice.entity.function.policy import combine_claim_policy
    w = Words(case["kind"])
    p, q = w.policy(case["p"]), w.policy(case["q"])
    claim = case.get("claim", "foo")
    api = case.get("api", 0)
    comb, err = None, None
    # with an empty policy there is nothing to combine
    if api == 0 and p and q:
        comb, err = attempt(combine_claim_policy, p, q)
    elif api <= 1:
        res, err = attempt(combine, {"metadata_policy": {claim: p, "other": {"add": "x"}}},
                                 {"metadata_policy": {claim: q}})
        if not err:
            comb = res["metadata_policy"].get(claim, {})
    else:
        pf = policy_function()
        res, err = attempt(pf.gather_policies, [{"metadata_policy": {"rp": {claim: p}}},
                                                      {"metadata_policy": {"rp": {claim: q}}}], "rp")
        if not err:
            comb = res["metadata_policy"].get(claim, {})
    steps = [{"op": "combine", "p": case["p"], "q": case["q"],
              "obs": {"ok": not err, "pol": w.policy_back(comb) if not err else []}}]
    if not err:
        for m in case["metas"]:
            steps.append(run_apply(w, w.policy_back(comb), m, case))
    return {"steps": steps}


def run_apply(w, pol, m, case):
    pf = policy_function()
    claim = case.get("claim", "foo")
    md = {"untouched": ["x", "y"], "left": "alone"}
    if m["has"]:
        md[claim] = w.md(m)
    res, err = attempt(pf.apply_policy, md, {"metadata_policy": {claim: w.policy(pol)}, "metadata": {}})
    return {"op": "apply", "p": pol, "m": m,
            "obs": {"ok": not err,
                    "m": w.md_back(res, claim) if not err else {"has": False, "many": False, "v": []},
                    "others": bool(not err and {k: v for k, v in res.items() if k != claim} ==
                                   {"untouched": ["x", "y"], "left": "alone"})}}


def run_applies(case):
    w = Words(case["kind"])
    return {"steps": [run_apply(w, p, m, case) for p in case["pols"] for m in case["metas"]]}


def run_chain(case):
    """case: {kind, sts: [[{t, c, kind, p|m}]], ec: [{t, c, m}], ask: type or "", how}"""
    from fedservice.entity_statement.statement import TrustChain
    w = Words(case["kind"])
    chain = []
    for st in case["sts"]:
        es = {"iss": "x", "sub": "y"}
        for e in st:
            if e["kind"] == "policy":
                es.setdefault("metadata_policy", {}).setdefault(e["t"], {})[e["c"]] = w.policy(e["p"])
            else:
                es.setdefault("metadata", {}).setdefault(e["t"], {})[e["c"]] = w.md(e["m"])
        chain.append(es)
    ec = {"metadata": {t: {} for t in case["ectypes"]}}
    for e in case["ec"]:
        ec["metadata"].setdefault(e["t"], {})[e["c"]] = w.md(e["m"])
    signed = case["how"] == "signed"
    if signed:
        from fedservice.entity.function import verify_trust_chains
        CLOCK.install(0)
        try:
            TA = "https://ta.example.net"
            fe = world.make_entity(SELF, {TA: ["TA-1"]})
            toks, iss, signer = [], TA, "TA-1"
            n = len(chain)
            for i, es in enumerate(chain):
                sub = f"https://e{i}.example.org"
                toks.append(world.statement(iss, sub, signer, [f"k{i}"], 3600,
                                            **{k: v for k, v in es.items() if k not in ("iss", "sub")}))
                iss, signer = sub, f"k{i}"
            toks.append(world.statement(iss, iss, signer, [signer], 3600, **ec))
            tcs = verify_trust_chains(fe, [toks])
            if len(tcs) != 1:
                return None
            tc, pf = tcs[0], fe.function.policy
        finally:
            CLOCK.uninstall()
    else:
        tc = TrustChain(verified_chain=[*chain, ec])
        pf = policy_function()
    before = copy.deepcopy([dict(s) if not hasattr(s, "to_dict") else s.to_dict() for s in tc.verified_chain])
    if case["how"] == "apply_policies" or signed:
        from fedservice.entity.function import apply_policies
        _, err = attempt(apply_policies, _FE["fe"] if not signed else fe, [tc])
    else:
        _, err = attempt(pf, tc, case["ask"])
    if not err and case.get("twice"):
        _, err = attempt(pf, tc, case["ask"])
    after = [dict(s) if not hasattr(s, "to_dict") else s.to_dict() for s in tc.verified_chain]
    md = []
    if not err:
        for t, m in tc.metadata.items():
            for c in (m or {}):
                md.append({"t": t, "c": c, "m": w.md_back(m, c)})
    ask = case["ask"] if case["how"] == "call" else ""
    types = [ask] if ask else list(case["ectypes"])
    recorded = True
    if not err:
        # the combined policy that the chain keeps has to be the one that made the metadata what it is
        for ty in types:
            m = tc.metadata.get(ty)
            if m is None:
                continue
            again, e = attempt(pf.apply_policy, copy.deepcopy(dict(before[-1]["metadata"][ty])),
                               copy.deepcopy(tc.combined_policy.get(ty) or {}))
            recorded = (recorded and not e and set(again) == set(m)
                        and all(w.md_back(again, c) == w.md_back(m, c) for c in m))
    return {"steps": [{"op": "chain", "sts": case["sts"], "ec": case["ec"], "types": types,
                       "obs": {"ok": not err, "md": md, "unchanged": before == after, "recorded": recorded}}]}


def judge(ctx, fn, cases, keep=None, drop=()):
    pairs = [p for p in ctx.execute(fn, cases) if p[1]]
    ctx.judge("PolicyTrace", pairs, known=known_superset(ctx))
    return pairs


def known_superset(ctx):
    import core
    listed = {k["id"]: k for k in core.known_findings(ctx.pid)}

    def known(case, tr, b):
        if list(b["clause"]) == ["superset_intersection"] and "superset_intersection" in listed:
            return listed["superset_intersection"]["what"]
        return None
    return known
