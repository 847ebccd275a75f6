"""C21 what an entity says about itself"""
import base64
import json
import os
import shutil
import tempfile

import world
from props import applib
from props.applib import url
from world import BASE
from world import CLOCK

LEVEL = "model_checking"
ME = "a"
KINDS = {"fe": None, "rp": "openid_relying_party", "oc": "oauth_client", "op": "openid_provider", "as": "oauth_authorization_server"}
OWN = {"rp": "contacts", "oc": "contacts", "op": "ui_locales_supported", "as": "ui_locales_supported"}
ORG = {"fe": "A", "rp": "RP", "oc": "RP", "op": "OP", "as": "OP"}
KEYS = ["a-rsa", "b-rsa", "a1", "a2"]


class Source:
    """Something that is configured: a list, a file or a function"""

    def __init__(self, ctx, attr, folder):
        self.ctx, self.attr, self.value = ctx, attr, None
        self.path = os.path.join(folder, attr + ".json")

    def set(self, how, value):
        self.value, self.how = list(value), how
        if how == "list":
            self.list = list(value)
            setattr(self.ctx, self.attr, self.list)
        elif how == "file":
            with open(self.path, "w") as fp:
                json.dump(value, fp)
            setattr(self.ctx, self.attr, self.path)
        else:
            setattr(self.ctx, self.attr, lambda: list(self.value))

    def change(self, value):
        """The same list, file or function, with other content"""
        self.value = list(value)
        if self.how == "list":
            self.list[:] = value
        elif self.how == "file":
            with open(self.path, "w") as fp:
                json.dump(value, fp)

    def now(self):
        cur = getattr(self.ctx, self.attr)
        if isinstance(cur, str):
            with open(cur) as fp:
                return json.load(fp)
        return list(cur or []) if isinstance(cur, list) or not cur else cur()


def texts(x):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from texts(v)
    elif isinstance(x, list):
        for v in x:
            yield from texts(v)
    elif isinstance(x, str):
        yield x


def private(x):
    if isinstance(x, dict):
        if "kty" in x and ({"d", "p", "q", "k", "dp", "dq"} & set(x) or x["kty"] == "oct"):
            return True
        return any(private(v) for v in x.values())
    return isinstance(x, list) and any(private(v) for v in x)


def b64(s):
    return base64.urlsafe_b64encode(s.encode()).decode().rstrip("=")


def build(case):
    kind = case["kind"]
    anchors = {url("t"): ["t1"]}
    if kind == "fe":
        fe = world.make_entity(url(ME), {url("t"): ["t1"]}, key_config=applib.EC_KEYS,
                               endpoints=["entity_configuration", "fetch", "list"],
                               preference={"organization_name": "A"})
        world.give_key(fe, world.rsa("a-rsa"))
        return fe, fe
    if kind in ("rp", "oc"):
        c = applib.client(KINDS[kind], url(ME), anchors, None, "a-rsa", case["own"], where=case["where"])
    else:
        c = applib.server(KINDS[kind], url(ME), anchors, None, signer="a-rsa")
    return c, c["federation_entity"]


def run_case(case):
    from cryptojwt import KeyJar
    from cryptojwt.jws.jws import factory
    from cryptojwt.key_bundle import KeyBundle
    CLOCK.install(0)
    folder = tempfile.mkdtemp(prefix="verif21-")
    try:
        combo, fe = build(case)
        ctx = fe.context
        src = {"hints": Source(ctx, "authority_hints", folder), "marks": Source(ctx, "trust_marks", folder)}
        names, secrets = {}, []
        for k in fe.keyjar.get_issuer_keys(""):
            names[k.kid] = k.kid if k.kid in KEYS else "own"
        steps = []
        for s in case["steps"]:
            s = dict(s)
            err = None
            if s["op"] == "tick":
                CLOCK.now += s["d"]
            elif s["op"] == "set":
                src[s["what"]].set(s["how"], s["v"])
            elif s["op"] == "change":
                src[s["what"]].change(s["v"])
            elif s["op"] == "addkey":
                world.give_key(fe, world.key(s["key"]))
                names[s["key"]] = s["key"]
            elif s["op"] == "dropkey":
                for i in ("", fe.entity_id):
                    for kb in fe.keyjar[i]:
                        for k in [k for k in kb.keys() if names.get(k.kid) == s["key"]]:
                            kb.remove(k)
            elif s["op"] == "otherkeys":
                fe.keyjar.import_jwks(world.pub("t2", "m1"), url(s["of"]))
            elif s["op"] == "describe":
                # What the entity says in its metadata is another thing from now on
                part = combo[KINDS[case["kind"]]] if s["what"] == "own" else fe
                part.context.claims.set_preference(OWN[case["kind"]] if s["what"] == "own" else "organization_name", s["v"])
                if s["what"] == "own" and case["kind"] in ("rp", "oc"):
                    part.context.claims.set_usage("contacts", s["v"])
            elif s["op"] == "secret":
                sec = f"secret-number-{len(secrets)}-of-the-client"
                secrets.append(sec)
                reg = {"client_id": s["id"], "client_secret": sec}
                if case["kind"] == "oc":
                    reg = {"oauth_client": reg, "federation_entity": {}}
                srv = (combo[KINDS[case["kind"]]] if case["where"] == "client" else fe).get_service("registration")
                _, err = world.outcome(srv.update_service_context, reg)
            else:
                via = s["via"]
                head = {}
                args = {"lifetime": s["life"]} if s["life"] else {}

                def say():
                    if via == "ec":
                        e = fe.get_endpoint("entity_configuration")
                        r = e.do_response(**e.process_request(e.parse_request({})))
                        head.update(dict(r.get("http_headers", [])))
                        return r["response"]
                    if via in ("fetch", "fetchme"):
                        e = fe.get_endpoint("fetch")
                        q = {"sub": url(ME)} if via == "fetchme" else {}
                        return e.process_request(e.parse_request(q))["response_msg"]
                    if via == "request":
                        srv = (combo[KINDS[case["kind"]]] if case["where"] == "client" else fe).get_service("registration")
                        return srv.construct(request_args={"entity_id": url(ME)})
                    if s.get("given"):
                        hints = [url(h) for h in s["given"]]
                        args["authority_hints"] = hints if s["how"] == "list" else lambda: hints
                    return ctx.create_entity_statement(url(ME), url(ME), **args)

                tok, err = world.outcome(say)
                o = {"ok": err is None, "err": err or "", "iss": "", "sub": "", "keys": [], "sig": False, "iat": 0, "exp": 0, "hints": ["-"],
                     "marks": ["-"], "types": [], "own": [], "org": "-", "leak": False, "ctype": head.get("Content-type", "").split(";")[0]}
                if tok:
                    j = factory(tok)
                    p = j.jwt.payload()
                    kj = KeyJar()
                    kj.import_jwks(p.get("jwks", {"keys": []}), "x")
                    kid = j.jwt.headers.get("kid")
                    good = [k for k in kj.get_issuer_keys("x") if k.kid == kid] if kid in names else []
                    sig = bool(good) and j.jwt.headers["alg"] != "none" and not world.outcome(j.verify_compact, tok, keys=good)[1]
                    alltexts = list(texts(p))
                    leak = private(p) or any(x in t for t in alltexts for y in secrets + ["a longesh password"] for x in (y, b64(y)))
                    md = p.get("metadata") or {}
                    own = md.get(KINDS[case["kind"]], {}).get(OWN.get(case["kind"]), [])
                    o.update(iss=applib.name(p.get("iss", "")), sub=applib.name(p.get("sub", "")), sig=sig, leak=leak,
                             keys=sorted(names.get(k.get("kid"), "?") for k in p.get("jwks", {}).get("keys", [])),
                             iat=p.get("iat", 0) - BASE, exp=p.get("exp", 0) - BASE,
                             hints=[applib.name(h) for h in p["authority_hints"]] if "authority_hints" in p else ["-"],
                             marks=p.get("trust_marks", ["-"]), types=sorted(md), own=list(own),
                             org=md.get("federation_entity", {}).get("organization_name", "-"))
                s["obs"] = o
            s["err"] = err or ""
            if s["op"] in ("set", "change"):
                s["v"] = [applib.name(x) if s["what"] == "hints" else x for x in s["v"]]
            s["after"] = {w: [applib.name(x) if w == "hints" else x for x in src[w].now()] for w in src}
            steps.append(s)
        return {"org": ORG[case["kind"]], "type": KINDS[case["kind"]] or "federation_entity", "kind": case["kind"],
                "own": list(case["own"]) if case["kind"] in ("rp", "oc") else [], "steps": steps}
    finally:
        CLOCK.uninstall()
        shutil.rmtree(folder, ignore_errors=True)


def rand_value(rng, what):
    n = rng.choice([0, 1, 1, 2, 3, 7])
    return [url(h) for h in rng.sample("tumnabcde", n)] if what == "hints" else [f"mark{rng.randrange(9)}" for _ in range(n)]


def rand_case(rng):
    kind = rng.choice(list(KINDS))
    steps, keys = [], ["a-rsa", "own"]
    ways = {"fe": ["ec", "fetch", "fetchme", "statement"], "rp": ["ec", "request", "statement"], "oc": ["ec", "request", "statement"]}
    conf = set()
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        if r < 0.1:
            steps.append({"op": "tick", "d": rng.choice([1, 60, 86400, 100000])})
        elif r < 0.35:
            what = rng.choice(["hints", "marks"])
            steps.append({"op": "set", "what": what, "how": rng.choice(["list", "file", "fun"]), "v": rand_value(rng, what)})
            conf.add(what)
        elif r < 0.5 and conf:
            what = rng.choice(sorted(conf))
            steps.append({"op": "change", "what": what, "v": rand_value(rng, what)})
        elif r < 0.56:
            k = rng.choice([x for x in KEYS if x not in keys] or ["-"])
            if k != "-":
                steps.append({"op": "addkey", "key": k})
                keys.append(k)
        elif r < 0.62:
            ok = [k for k in keys if not k.endswith("-rsa") or sum(x.endswith("-rsa") for x in keys) > 1]
            if ok:
                k = rng.choice(ok)
                steps.append({"op": "dropkey", "key": k})
                keys.remove(k)
        elif r < 0.66:
            steps.append({"op": "otherkeys", "of": rng.choice("tm")})
        elif r < 0.72:
            if kind == "fe" or rng.random() < 0.5:
                steps.append({"op": "describe", "what": "org", "v": rng.choice(["A", "B", "C"])})
            else:
                steps.append({"op": "describe", "what": "own", "v": [f"new{i}" for i in range(rng.randint(1, 3))]})
        elif r < 0.78 and kind in ("rp", "oc"):
            steps.append({"op": "secret", "id": rng.choice([url(ME), "client1"])})
        else:
            via = rng.choice(ways.get(kind, ["ec", "statement"]))
            given = rng.sample("tumnabcde", rng.choice([0, 1, 2, 7])) if via == "statement" else []
            steps.append({"op": "say", "via": via, "life": rng.choice([0, 0, 10, 3600]), "given": given, "how": rng.choice(["list", "fun"])})
    for v in ways.get(kind, ["ec", "statement"]):
        steps.append({"op": "say", "via": v, "life": 0, "given": []})
    return {"kind": kind, "where": rng.choice(["client", "fe"]), "own": [f"own{i}" for i in range(rng.randint(0, 2))], "steps": steps}


def run(ctx):
    ctx.model_check("SelfMC", "SelfQuick.cfg" if ctx.quick else "SelfThorough.cfg")
    for k in KEYS + ["t1", "t2", "m1"]:
        world.key(k)
    cases = [rand_case(ctx.rng) for _ in range(500 if ctx.quick else 9000)]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("SelfTrace", pairs)
    ctx.count("steps", [s["op"] + (":" + s["via"] if "via" in s else "") for p in pairs for s in p[1]["steps"]])
    ctx.count("errors", [s["err"] for p in pairs for s in p[1]["steps"] if s.get("err")])


def replay(ctx, case):
    ctx.judge("SelfTrace", ctx.execute(run_case, [case]))
