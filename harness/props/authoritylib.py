"""Histories of a superior: what it registers, states and lists (Authority.tla)"""
import copy
import json
import os
import shutil
import tempfile
from urllib.parse import urlencode

import world
from world import BASE
from world import CLOCK
from world import NET

ME = "https://ta.example.org"
WELL = "/.well-known/openid-federation"
URL = {"s": "https://s.example.org", "r": "https://r.example.com/tenant/1", "q": "https://q.example.net/",
       "me": ME, "": "", "z": "https://z.example.org", "ta2": "https://ta2.example.org"}
BACK = {v: k for k, v in URL.items()}
TYPES = {"rp": "openid_relying_party", "op": "openid_provider", "fe": "federation_entity"}
TBACK = {v: k for k, v in TYPES.items()}
CONS = {"": None, "c1": {"max_path_length": 1}, "c2": {"naming_constraints": {"permitted": ["https://.example.org"]}}}
MARK = {"a": "https://refeds.org/sirtfi", "b": "https://b.example.com/mark", "c": "https://refeds.org/sirtfi/2"}
# What may be asked for, even though nobody has it
ASK_TYPE = {**TYPES, "part": "openid", "more": "openid_provider_x", "case": "Openid_Provider"}
ASK_MARK = {**MARK, "part": "https://refeds.org", "more": "https://b.example.com/mark/x"}
# Other claims that go into the statements
EXT = {"crit": ["x_claim"], "x_claim": {"a": [1, "b"]}, "source_endpoint": ME + "/fetch", "zero": 0, "no": False,
       "policy_language_crit": ["regexp"]}


def md_value(v):
    return {"contacts": [v + "@example.org"], "organization_name": v}


def mdp_value(v):
    return {"contacts": {"add": [v + "@example.org"]}, "scope": {"subset_of": [v, "openid"]}}


def info(r):
    d = {"jwks": world.pub(*r["jwks"])}
    if r["types"] or r.get("et"):
        d["entity_types"] = [TYPES[t] for t in r["types"]]
    if r["im"]:
        d["intermediate"] = True
    if r["hints"]:
        d["authority_hints"] = [URL[h] for h in r["hints"]]
    for k, name, fn in (("md", "metadata", md_value), ("mdp", "metadata_policy", mdp_value)):
        if r[k]:
            d[name] = {TYPES[x["t"]]: fn(x["v"]) for x in r[k]}
    if r["cons"]:
        d["constraints"] = CONS[r["cons"]]
    d.update({x: EXT[x] for x in r.get("ext", [])})
    return d


def policy(p):
    d = {}
    single = p["id"] in TYPES
    for k, name, fn in (("md", "metadata", md_value), ("mdp", "metadata_policy", mdp_value)):
        if p["has" + k]:
            x = {TYPES[e["t"]]: fn(e["v"]) for e in p[k]}
            d[name] = x.get(TYPES[p["id"]], {}) if single else x
    return d


def unmap(claims, fn, values):
    res = []
    for t, c in (claims or {}).items():
        v = [x for x in values if fn(x) == c]
        res.append({"t": TBACK.get(t, t), "v": v[0] if v else json.dumps(c, sort_keys=True)[:60]})
    return res


def mark_of(tok):
    from cryptojwt.jws.jws import factory
    p = factory(tok).jwt.payload()
    return next((k for k, v in MARK.items() if v == p["id"]), "?") + BACK.get(p["sub"], "?")


class Superior:
    def __init__(self, case, tmp):
        from fedservice.defaults import federation_endpoints
        kw = {}
        if case["store"] == "fs":
            kw["subordinate"] = {"class": "idpyoidc.storage.abfile.AbstractFileSystem",
                                 "kwargs": {"fdir": tmp, "key_conv": "idpyoidc.util.Base64",
                                            "value_conv": "idpyoidc.util.JSON"}}
        eps = federation_endpoints("entity_configuration", "fetch", "list")
        if case.get("extended"):
            eps["list"] = {**eps["list"], "kwargs": {**eps["list"].get("kwargs", {}), "extended": True}}
        self.fe = world.make_entity(ME, {"https://top.example.org": ["top-1"]},
                                    endpoints=eps, **kw)
        self.store = case["store"]
        self.case = case
        for n in case["own"]:
            world.give_key(self.fe, world.rsa(n))
        self.own = [k.kid for k in self.fe.keyjar.get_issuer_keys("")]
        self.net = {}

    @property
    def sub(self):
        return self.fe.server.subordinate

    def state(self):
        subs = {k: copy.deepcopy(v) for k, v in self.sub.items()}
        return json.dumps([subs, self.fe.server.policy], sort_keys=True, default=str)

    def register(self, r):
        if self.store == "fs" and r.get("outside"):
            from idpyoidc.storage.abfile import AbstractFileSystem
            other = AbstractFileSystem(fdir=self.sub.fdir, key_conv="idpyoidc.util.Base64", value_conv="idpyoidc.util.JSON")
            fn = os.path.join(self.sub.fdir, other.key_conv.serialize(URL[r["sub"]]))
            before = os.stat(fn).st_mtime_ns if os.path.exists(fn) else 0
            other[URL[r["sub"]]] = info(r)
            now = os.stat(fn).st_mtime_ns
            if now <= before + 10:  # the file system's clock may be too coarse
                os.utime(fn, ns=(before + 10 ** 7, before + 10 ** 7))
        else:
            self.sub[URL[r["sub"]]] = info(r)

    def remove(self, s):
        if URL[s] not in list(self.sub.keys()):
            return
        if self.store == "fs":
            del self.sub[self.sub.key_conv.serialize(URL[s])]
        else:
            del self.sub[URL[s]]

    def ask(self, name, req, how):
        ep = self.fe.server.endpoint[name]
        if how == 0:
            res = ep.process_request(dict(req))
            return res.get("response_msg", res.get("response"))
        args = ep.parse_request(urlencode(req) if how in (1, 3) else dict(req))
        res = ep.process_request(args)
        out = ep.do_response(request=args, **res)
        return out["response"]

    def handler(self, method, url, body, headers):
        if not url.endswith(WELL):
            return 404, "text/plain", ""
        n = self.net.get(url[:-len(WELL)])
        if n is None or n["how"] == "down":
            return 404, "text/plain", "no"
        who = URL[n["sub"]]
        keys = n["keys"]
        marks = [world.sign({"iss": "https://tmi.example.org", "sub": who, "id": MARK[m], "iat": BASE}, "tmi-1", typ="trust-mark+jwt")
                 for m in n["says"]]
        extra = {"trust_marks": marks} if marks or n.get("empty") else {}
        if n["how"] == "other":  # someone else's configuration
            who, keys = URL[n["other"][0]], n["other"][1]
        kw = {"alg": "none"} if n["how"] == "none" else {}
        iss, sub = who, who
        if n["how"] == "half":  # signed with the right key, but not by or about the one asked
            iss, sub = [(URL[n["other"][0]], who), (who, URL[n["other"][0]])][n["other"][1]]
        if n["how"] == "lent":  # someone else has issued it
            iss, keys = URL[n["other"][0]], n["other"][1]
        tok = world.statement(iss, sub, keys[0], keys, CLOCK.now + 3600, iat=CLOCK.now,
                              metadata={"federation_entity": {}}, authority_hints=[ME], **extra, **kw)
        return 200, "application/entity-statement+jwt", tok

    def observe(self, tok, err, before):
        from cryptojwt.jws.jws import factory
        vals = ["m%d" % i for i in range(6)] + ["p%d" % i for i in range(6)]
        o = {"ok": bool(tok), "sig": False, "alive": False, "private": False, "err": err or "",
             "changed": self.state() != before,
             "st": {"iss": "", "sub": "", "jwks": [], "md": [], "mdp": [], "hints": [], "cons": "", "ext": []}}
        if not tok:
            return o
        _jws = factory(tok)
        p = _jws.jwt.payload()
        try:
            o["sig"] = bool(_jws.verify_compact(tok, keys=self.fe.keyjar.get_issuer_keys("")))
        except Exception:
            pass
        o["alive"] = p.get("iat", 10 ** 12) <= BASE + CLOCK.now < p.get("exp", 0)
        keys = p.get("jwks", {}).get("keys", [])
        o["private"] = any(x in k for k in keys for x in ("d", "p", "q", "k", "dp", "dq", "qi"))
        # the key itself, not just its name
        known = {k.kid: k for k in self.fe.keyjar.get_issuer_keys("")}
        names = []
        for k in keys:
            kid = k.get("kid")
            real = known[kid].serialize() if kid in known else world.key(kid).serialize(private=False) if kid else {}
            names.append(kid if all(real.get(x) == k.get(x) for x in ("kty", "crv", "x", "y", "n", "e")) else "?" + str(kid))
        o["st"] = {"iss": BACK.get(p.get("iss"), "?"), "sub": BACK.get(p.get("sub"), "?"), "jwks": names,
                   "md": unmap(p.get("metadata"), md_value, vals), "mdp": unmap(p.get("metadata_policy"), mdp_value, vals),
                   "hints": [BACK.get(h, "?") for h in p.get("authority_hints", [])],
                   "cons": next((k for k, v in CONS.items() if v == p.get("constraints")), "?")}
        rest = {k: v for k, v in p.items() if k not in (
            "iss", "sub", "iat", "exp", "jwks", "metadata", "metadata_policy", "authority_hints", "constraints", "intermediate")}
        o["st"]["ext"] = [k if v == EXT.get(k, "?") else "?" + k for k, v in rest.items()]
        return o


def run_case(case):
    CLOCK.install(0)
    tmp = tempfile.mkdtemp(prefix="auth-")
    try:
        sup = Superior(case, tmp)
        NET.install(sup.handler)
        steps = []
        for op in case["ops"]:
            s = {k: v for k, v in op.items() if k not in ("how", "met")}
            k, how = op["op"], op.get("how", 0)
            if k == "register":
                sup.register(op["r"])
            elif k == "remove":
                sup.remove(op["sub"])
            elif k == "policy":
                p = op["p"]
                sup.fe.server.policy[TYPES.get(p["id"], URL.get(p["id"]))] = policy(p)
            elif k == "net":
                sup.net = {URL[n["sub"]]: n for n in op["net"]}
                for i, ks in op.get("met", {}).items():  # keys they have been seen with, at some other occasion
                    sup.fe.keyjar.import_jwks(world.pub(*ks), URL[i])
                s["net"] = [{"sub": n["sub"], "good": n["good"], "signer": n["keys"][0], "marks": n["says"]} for n in op["net"]]
            else:
                before = sup.state()
                if k in ("fetch", "self"):
                    req = {}
                    if op.get("iss"):
                        req["iss"] = URL[op["iss"]]
                    if op.get("sub"):
                        req["sub"] = URL[op["sub"]]
                    if op.get("ep", "fetch") == "entity_configuration":
                        req = {}  # There are no parameters
                    tok, err = world.outcome(sup.ask, op.get("ep", "fetch"), req, how)
                    s["obs"] = sup.observe(tok, err, before)
                    if k == "self":
                        s["own"] = sup.own
                elif k == "list":
                    q = op["q"]
                    req = {}
                    if q["type"]:
                        req["entity_type"] = ASK_TYPE[q["type"]]
                    for name, key in (("intermediate", "im"), ("trust_marked", "marked")):
                        if q[key]:
                            req[name] = {0: True, 1: "true", 2: True, 3: "True"}[how]
                        elif op.get("explicit"):
                            req[name] = {0: False, 1: "false", 2: False, 3: "False"}[how]
                    if q["mark"]:
                        req["trust_mark_id"] = ASK_MARK[q["mark"]]
                    res, err = world.outcome(sup.ask, "list", req, how)
                    subs = json.loads(res) if res else []
                    # More about each of them
                    about = list(subs.values()) if isinstance(subs, dict) else [{"sub": x} for x in subs]
                    s["obs"] = {"ok": bool(res), "subs": [BACK.get(x, "?") for x in subs], "more": isinstance(subs, dict),
                                "about": [{"sub": BACK.get(x.get("sub"), "?"), "marks": sorted(mark_of(m) for m in x.get("trust_marks", []))}
                                          for x in about], "err": err or "",
                                "changed": sup.state() != before}
            steps.append(s)
        return {"steps": steps}
    finally:
        NET.uninstall()
        CLOCK.uninstall()
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------------------------- cases

def prepare():
    for n in "s1 s2 r1 r2 q1 q2 tmi-1 k1 k2 z1".split():
        world.key(n)
    for n in ("own-1", "own-2"):
        world.rsa(n)


def rand_info(rng, sub):
    ts = rng.sample(list(TYPES), rng.choice([0, 1, 1, 1, 2, 3]))

    def tv(p, n):
        return [{"t": t, "v": f"{p}{rng.randrange(6)}"} for t in rng.sample(list(TYPES), n)]

    return {"sub": sub, "jwks": rng.sample([sub + "1", sub + "2"], rng.choice([1, 1, 2])), "types": ts,
            "im": rng.random() < 0.3, "hints": rng.choice([[], [], ["me"], ["me", "ta2"]]),
            "md": tv("m", rng.choice([0, 0, 1, 2])), "mdp": tv("p", rng.choice([0, 0, 1, 2])),
            "cons": rng.choice(["", "", "c1", "c2"]), "ext": rng.sample(list(EXT), rng.choice([0, 0, 1, 2])), "et": rng.random() < 0.3, "outside": rng.random() < 0.3}


def rand_policy(rng, ids):
    i = rng.choice([*TYPES, *TYPES, *ids])
    p = {"id": i, "md": [], "mdp": []}
    ts = [i] if i in TYPES else rng.sample(list(TYPES), rng.randint(1, 2))
    p["hasmd"], p["hasmdp"] = rng.choice([(True, False), (False, True), (True, True), (False, True)])
    if p["hasmd"]:
        p["md"] = [{"t": t, "v": f"m{rng.randrange(6)}"} for t in ts]
    if p["hasmdp"]:
        p["mdp"] = [{"t": t, "v": f"p{rng.randrange(6)}"} for t in ts]
    return p


def fetch_op(rng, ids):
    if rng.random() < 0.12:
        r = rng.random()
        return {"op": "self", "iss": rng.choice(["", "me"]), "sub": rng.choice(["", "me"]), "how": rng.randrange(4),
                "ep": "fetch" if r < 0.5 else "entity_configuration"}
    return {"op": "fetch", "iss": rng.choice(["", "me", "me", "ta2"]) if rng.random() < 0.5 else "",
            "sub": rng.choice([*ids, *ids, "z"]), "how": rng.randrange(4)}


def list_op(rng):
    r = rng.random()
    q = {"type": "", "im": False, "marked": False, "mark": ""}
    if r > 0.15:
        if rng.random() < 0.6:
            q["type"] = rng.choice([*TYPES, *TYPES, *ASK_TYPE])
        q["im"] = rng.random() < 0.35
        if rng.random() < 0.4:
            q["marked"] = rng.random() < 0.5
            if rng.random() < 0.5:
                q["mark"] = rng.choice([*MARK, *ASK_MARK])
    return {"op": "list", "q": q, "how": rng.randrange(4), "explicit": rng.random() < 0.2}


def net_op(rng, current):
    net = []
    for sub, keys in current.items():
        n = {"sub": sub, "how": "ok", "good": True, "keys": rng.choice([keys, keys, [rng.choice(keys)]]),
             "says": rng.sample(list(MARK), rng.choice([0, 1, 1, 2])), "empty": rng.random() < 0.3}
        r = rng.random()
        if r < 0.05:
            n.update(how="down", good=False)
        elif r < 0.1:
            n.update(keys=["k1"], good=False)
        elif r < 0.14:
            n.update(how="none", good=False)
        elif r < 0.18:
            n.update(how="half", other=[rng.choice([x for x in ("s", "r", "q", "z") if x != sub]), rng.randrange(2)], good=False)
        elif r < 0.27 and len(current) > 1:
            o = rng.choice([x for x in current if x != sub])
            n.update(how=rng.choice(["other", "lent"]), other=[o, current[o]], good=False)
        net.append(n)
    met = {i: rng.choice([[i + "1"], [i + "2"], ["k1"], [i + "1", i + "2"]]) for i in current if rng.random() < 0.3}
    return {"op": "net", "net": net, "met": met}


def rand_case(rng, kind):
    ids = ["s", "r", "q"]
    ops, current = [], {}
    for _ in range(rng.randint(4, 16)):
        r = rng.random()
        if r < 0.3 or not current:
            x = rand_info(rng, rng.choice(ids))
            current[x["sub"]] = x["jwks"]
            ops.append({"op": "register", "r": x})
        elif r < 0.36:
            s = rng.choice(ids)
            current.pop(s, None)
            ops.append({"op": "remove", "sub": s})
        elif r < 0.5:
            ops.append({"op": "policy", "p": rand_policy(rng, ids)})
        elif kind == "list":
            if r < 0.62:
                ops.append(net_op(rng, current))
            else:
                ops.append(list_op(rng))
        else:
            ops.append(fetch_op(rng, ids))
    if kind == "list":
        ops += [list_op(rng) for _ in range(3)]
    else:
        ops += [fetch_op(rng, ids) for _ in range(3)]
    return {"store": rng.choice(["dict", "dict", "fs"]), "extended": rng.random() < 0.3, "own": rng.choice([["own-1"], ["own-1", "own-2"]]), "ops": ops}


def gen_case(rng, g, kind):
    ops = []
    for o in g["ops"]:
        if o["op"] == "register":
            r = dict(o["r"], et=False, outside=False, ext=[])
            ops.append({"op": "register", "r": r})
        elif o["op"] == "remove":
            ops.append({"op": "remove", "sub": o["r"]["sub"]})
        else:
            ops.append({"op": "policy", "p": o["r"]})
        ops += [fetch_op(rng, ["s"]) if kind == "fetch" else list_op(rng) for _ in range(2)]
    return {"store": rng.choice(["dict", "fs"]), "own": ["own-1"], "ops": ops}


def run(ctx, kind):
    ctx.model_check("AuthorityMC", "AuthorityQuick.cfg" if ctx.quick else "AuthorityThorough.cfg")
    gen = ctx.generate("AuthorityMC", "AuthorityGen.cfg")
    rng = ctx.rng
    rng.shuffle(gen)
    prepare()
    cases = [gen_case(rng, g, kind) for g in gen[: 250 if ctx.quick else len(gen)]]
    cases += [rand_case(rng, kind) for _ in range(400 if ctx.quick else 8000)]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("AuthorityTrace", pairs)
    ctx.count("steps", [s["op"] + (":%s" % s["obs"]["ok"] + (":more" if s["obs"].get("more") else "") if "obs" in s else "") for p in pairs for s in p[1]["steps"]])


def replay(ctx, case):
    prepare()
    ctx.judge("AuthorityTrace", ctx.execute(run_case, [case]))
