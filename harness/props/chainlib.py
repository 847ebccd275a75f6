"""Trace recording for verification of trust chains (Chain.tla)."""
import random

import world
from world import BASE
from world import CLOCK

SELF = "https://self.example.se"


def entry_url(e):
    host = ".".join(e["labels"])
    return e.get("scheme", "https") + "://" + ("." if e["dot"] else "") + \
        (host.title() if e.get("upper") else host) + e.get("tail", "")


def st(iss, sub, signer, jwks, exp=86400, **kw):
    """An abstract statement"""
    res = dict(iss=iss, sub=sub, signer=signer, kid=signer, alg="ES256", tampered=False,
               hasjwks=jwks is not None, jwks=list(jwks or []), exp=exp, crit="ok", mpl=-1,
               permitted=[], excluded=[], host=[], extra={})
    res.update(kw)
    return res


def host_of(url):
    """Labels of the host. Only used for URLs that this harness composed."""
    rest = url.split("://", 1)[1]
    for c in "/:?#":
        rest = rest.split(c, 1)[0]
    return rest.lower().split(".")


def payload_constraints(s):
    cons = {}
    if s["mpl"] != -1:
        cons["max_path_length"] = s["mpl"]
    nc = {}
    if s["permitted"] or s.get("empty_permitted"):
        nc["permitted"] = [entry_url(e) for e in s["permitted"]]
    if s["excluded"] or s.get("empty_excluded"):
        nc["excluded"] = [entry_url(e) for e in s["excluded"]]
    if nc or s.get("empty_nc"):
        cons["naming_constraints"] = nc
    if cons or s.get("empty_constraints"):
        return cons
    return None


_MEMO = {}


def compact(s):
    """The signed statement"""
    import json
    memo = json.dumps(s, sort_keys=True)
    tok = _MEMO.get(memo)
    if tok is None:
        claims = {}
        cons = payload_constraints(s)
        if cons is not None:
            claims["constraints"] = cons
        claims.update(s.get("extra") or {})
        tok = world.statement(s["iss"], s["sub"], s["signer"],
                              s["jwks"] if s["hasjwks"] else None, s["exp"], kid=s["kid"],
                              alg=s["alg"],
                              tamper=s.get("tamper_with", {"metadata": {"x": {"y": "z"}}})
                              if s["tampered"] else None, **claims)
        if len(_MEMO) < 20000:
            _MEMO[memo] = tok
    return tok


def payload(s):
    res = {"iss": s["iss"], "sub": s["sub"], "exp": BASE + s["exp"], "iat": BASE}
    cons = payload_constraints(s)
    if cons is not None:
        res["constraints"] = cons
    return res


def abstract(s):
    """What the specification sees"""
    return {k: s[k] for k in ("iss", "sub", "signer", "kid", "alg", "tampered", "hasjwks", "jwks",
                              "exp", "crit", "mpl")} | {
        "host": s["host"] or host_of(s["sub"]),
        "permitted": [{"dot": e["dot"], "labels": e["labels"]} for e in s["permitted"]],
        "excluded": [{"dot": e["dot"], "labels": e["labels"]} for e in s["excluded"]]}


def run_case(case):
    """case: {"anchors": {id: [keys]}, "ops": [{"op", "now", "chain"}]}"""
    anchors = case["anchors"]
    CLOCK.install(0)
    try:
        cfg = {"self": SELF, "anchors": sorted(anchors),
               "keys": [{"id": a, "keys": ks} for a, ks in sorted(anchors.items())]}
        fe = None
        if any(op["op"] != "restrict" for op in case["ops"]):
            fe = world.make_entity(SELF, anchors)
            # The entity's own key, under a name of ours
            own = "self-1"
            from cryptojwt.key_bundle import KeyBundle
            kb = KeyBundle()
            kb.set([world.key(own)])
            fe.keyjar[SELF] = type(fe.keyjar[SELF])()
            fe.keyjar.add_kb(SELF, kb)
            fe.keyjar[""] = type(fe.keyjar[SELF])()
            fe.keyjar.add_kb("", kb)
            cfg["keys"].append({"id": SELF, "keys": [own]})
            for e, ks in (case.get("known_keys") or {}).items():
                k2 = KeyBundle()
                k2.set([world.key(k) for k in ks])
                fe.keyjar.add_kb(e, k2)
        steps = []
        for op in case["ops"]:
            CLOCK.now = op["now"]
            chain = op["chain"]
            if op["op"] == "restrict":
                from fedservice.entity_statement.constraints import meets_restrictions
                val, err = world.outcome(meets_restrictions, [payload(s) for s in chain])
                obs = {"ok": bool(val), "err": err or ""}
                steps.append({"op": "restrict", "now": op["now"],
                              "chain": [abstract(s) for s in chain], "obs": obs})
                continue
            toks = [compact(s) for s in chain]
            before = all_keys(fe)
            obs = verify(fe, toks, op.get("api", 0))
            learned = [{"id": i, "key": k} for i, k in sorted(all_keys(fe) - before)]
            steps.append({"op": "verify", "now": op["now"], "chain": [abstract(s) for s in chain],
                          "obs": obs, "learned": learned, "anchorkeys": anchor_keys(fe, [k["id"] for k in cfg["keys"]])})
        return {"cfg": cfg, "steps": steps}
    finally:
        CLOCK.uninstall()


def all_keys(fe):
    return {(i, k.kid) for i in fe.keyjar.owners() for k in fe.keyjar.get_issuer_keys(i)}


def anchor_keys(fe, ids):
    res = []
    for i in ids:
        val, err = world.outcome(fe.keyjar.get_issuer_keys, i)
        res.append({"id": i, "keys": sorted({k.kid for k in (val or [])})})
    return res


def verify(fe, toks, api=0):
    from fedservice.entity.function import verify_trust_chain
    from fedservice.entity.function import verify_trust_chains
    obs = {"ok": False, "err": "", "exp": 0, "iss_path": [], "anchor": "", "subs": []}
    toks = list(toks)
    if api == 0:
        tc, err = world.outcome(verify_trust_chain, fe, toks)
    elif api == 1:
        tc, err = world.outcome(verify_trust_chains, fe, [toks])
        tc = tc[0] if tc else None
    else:
        tc, err = world.outcome(verify_trust_chains, fe, [toks[:-1]], toks[-1])
        tc = tc[0] if tc else None
    obs["err"] = err or ""
    if tc:
        obs.update(ok=True, exp=tc.exp - BASE, iss_path=list(tc.iss_path), anchor=tc.anchor,
                   subs=[s["sub"] for s in tc.verified_chain])
    return obs


# ------------------------------------------------------------------------------- building chains

def honest_chain(subjects, anchor, anchor_key="TA-1", exp=86400, keys=None, **leaf):
    """[statement by the anchor about subjects[0], ..., own statement of subjects[-1]]"""
    keys = keys or {}
    res = []
    iss, signer = anchor, anchor_key
    for s in subjects:
        k = keys.get(s, [f"{s}#1"])
        res.append(st(iss, s, signer, k, exp=exp))
        iss, signer = s, k[0]
    res.append(st(iss, iss, signer, [signer], exp=exp))
    return res


def decorate(rng, labels, strict=False):
    """A URL with that host"""
    h = ".".join(labels)
    if rng.random() < 0.25:
        h = "".join(c.upper() if rng.random() < 0.5 else c for c in h)
    scheme = "http" if rng.random() < 0.1 else "https"
    tail = rng.choice(["", "", "", "/", "/path", ":8443", ":8443/p/q", "?x=y", "#f", "/a.b.c",
                       "/.example.com", "/%2e", "?host=.other.org", ":443?a.example.com"])
    return f"{scheme}://{h}{tail}"


def replay(ctx, case, keep=None):
    ctx.judge("ChainTrace", ctx.execute(run_case, [case]), known=keep)


def only(*clauses):
    """A verdict about something else is for another property's check"""
    want = set(clauses)

    def f(case, tr, b):
        return None

    def filt(ctx):
        ctx.bad = [(c, w) for c, w in ctx.bad
                   if w.get("clause") in ("crash", "hang", "unusable") or want & set(w["clause"])]
    return filt
