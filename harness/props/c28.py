"""C28 what an OpenID provider on the web hands out, to whom"""
import base64
import json
import os
import shutil
import tempfile
from urllib.parse import parse_qs
from urllib.parse import urlparse

from cryptojwt.jwk.hmac import SYMKey

import world
from props import applib
from props.applib import name
from props.applib import url
from props.c21 import private
from props.c27 import SCRIPT
from props.c27 import views
from world import BASE
from world import CLOCK

LEVEL = "model_checking"
OP = applib.OP
ASSERT = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
PASSWORDS = {"diana": "krall", "babs": "howes"}
USERS = {u: {"sub": u + "-in-db", "name": f"{u} name", "email": f"{u}@example.org", "phone_number": f"+46 {u}"} for u in PASSWORDS}
OF_SCOPE = {"email": ["email"], "profile": ["name"], "phone": ["phone_number"]}


def cb(c, n):
    return {0: "https://evil.example.org/cb", 9: f"https://{c}.example.org/cb1?more=1", 8: f"https://{c}.example.org/cb1/.."}.get(
        n, f"https://{c}.example.org/cb{n}")


def back(u):
    """Which one of whose redirect URIs this is"""
    for c in "abcx":
        for n in (1, 2, 0, 8, 9):
            if u == cb(c, n):
                return [c, n]
    return ["?", 0]


def vouching(i, only, life):
    sub = {"keys": [i + "1"], "life": life}
    if only:
        sub["metadata_policy"] = {"openid_relying_party": {"redirect_uris": {"subset_of": [cb(i, n) for n in only]}}}
    return sub


def build(case):
    ents = {url("t"): {"keys": ["t1"], "signer": "t1", "metadata": applib.metadata(["fe"], {}, url("t")), "leaf": False, "hints": None,
                       "life": 86400 * 30, "subs": {}}}
    for c in case["clients"]:
        i = c["id"]
        md = {"redirect_uris": [cb(i, n) for n in c["uris"]], "response_types": ["code"], "jwks": world.pub(*c["app"])}
        if c["pair"]:
            md["subject_type"] = "pairwise"
        if c["alg"]:
            md["id_token_signed_response_alg"] = c["alg"]
        if c["ualg"]:
            md["userinfo_signed_response_alg"] = c["ualg"]
        ents[url(i)] = {"keys": [i + "1"], "signer": i + "1", "metadata": {"openid_relying_party": md}, "leaf": True, "hints": [url("t")],
                        "life": 86400 * 30, "subs": {}}
        if c["vouched"]:
            ents[url("t")]["subs"][url(i)] = vouching(i, c["only"], case["life"])
    return world.Federation(ents)


def make_op(root, reg_types, cookies):
    with open(os.path.join(root, "login.html"), "w") as fp:
        fp.write("PAGE {{ token }}")
    for f, d in (("pw", PASSWORDS), ("users", USERS)):
        with open(os.path.join(root, f + ".json"), "w") as fp:
            json.dump(d, fp)
    more = {"template_dir": root,
            "cookie_handler": {"class": "idpyoidc.server.cookie_handler.CookieHandler",
                               "kwargs": {"sign_key": SYMKey(key="s" * 32), "enc_key": SYMKey(key="e" * 32)} if cookies == "both" else
                                         {"sign_key": SYMKey(key="s" * 32)} if cookies == "sign" else {}},
            "authentication": {"user": {
                "acr": "idpyoidc.server.user_authn.authn_context.INTERNETPROTOCOLPASSWORD",
                "class": "idpyoidc.server.user_authn.user.UserPassJinja2",
                "kwargs": {"verify_endpoint": "verify/user", "template": "login.html",
                           "db": {"class": "idpyoidc.server.util.JSONDictDB", "kwargs": {"filename": root + "/pw.json"}}}}},
            "userinfo": {"class": "idpyoidc.server.user_info.UserInfo", "kwargs": {"db_file": root + "/users.json"}}}
    op = applib.server("openid_provider", OP, {url("t"): ["t1"]}, [url("t")], reg_types=reg_types, more=more)
    world.give_key(op["openid_provider"], world.rsa("op-app"))
    return op


def run_case(case):
    root = tempfile.mkdtemp(prefix="fs28-")
    CLOCK.install(0)
    try:
        return _run_case(case, root)
    finally:
        CLOCK.uninstall()
        shutil.rmtree(root)


def _run_case(case, root):
    import warnings

    from cryptojwt.jws.jws import factory
    from flask import Flask
    warnings.simplefilter("ignore")
    fed = build(case)
    op = make_op(root, ["automatic", "explicit"] if case["auto"] else ["explicit"], case["cookies"])
    srv = op["openid_provider"]
    app = Flask("op")
    app.register_blueprint(views("edu_federation", "openid_provider").entity)
    app.server, app.federation_entity = op, op["federation_entity"]
    web = app.test_client(use_cookies=False)
    pages, codes, tokens, ids, refresh = [], [], [], [], []
    secrets, subs, last = {}, {}, {"jti": "", "all": set(), "used": set()}
    jars = {0: {}, 1: {}, 2: {}}  # The cookies of browsers. The first one doesn't keep any
    made = {"page": [], "code": [], "refresh": []}
    cdb = srv.context.cdb

    def pick(lst, s, key):
        """One of those there are, which one is noted in the step. n < 0: the last one"""
        n = s[key]
        s[key] = 0 if not lst else len(lst) if n < 0 else n % len(lst) + 1
        return lst[s[key] - 1] if lst else "no-such"

    def answer(r):
        ctype = (r.headers.get("Content-Type") or "").split(";")[0]
        text = r.get_data(as_text=True)
        return text, {"status": r.status_code, "kind": "refused", "echo": "<script>" in text and ctype == "text/html"}

    def payload(tok):
        j = factory(tok)
        keys = [k for k in srv.keyjar.get_issuer_keys("") if not k.kid or k.kid == j.jwt.headers.get("kid")]
        return j.jwt.headers, j.jwt.payload(), not world.outcome(j.verify_compact, tok, keys=keys)[1]

    def authz(s):
        q = s["req"]
        pars = {"response_type": q["rtype"], "client_id": url(q["cid"]), "redirect_uri": cb(q["of"], q["uri"]), "scope": " ".join(q["scope"]),
                "state": SCRIPT if q["bad"] == "script" else q["state"], "nonce": q["nonce"]}
        if "offline_access" in q["scope"]:
            pars["prompt"] = "consent"
        if q["prompt"]:
            pars["prompt"] = q["prompt"]
        if q["bad"].startswith("no:"):
            pars.pop(q["bad"][3:])
        if q["signer"]:
            pars["request"] = world.sign(dict(pars, iss=url(q["cid"]), aud=OP, exp=BASE + CLOCK.now + 600), q["signer"], typ="oauth-authz-req+jwt")
        jar = {k: v[:-9] + v[-1] if q["jar"] == "cut" else "x" if q["jar"] == "junk" else v for k, v in jars[q["b"]].items()}
        r = web.get("/authorization", query_string=pars, headers={"Cookie": "; ".join(f"{k}={v}" for k, v in jar.items())} if jar else {})
        text, o = answer(r)
        if r.status_code == 200 and text.startswith("PAGE "):
            pages.append(text[5:])
            made["page"].append({**q, "uri": [q["of"], q["uri"]]})
            o["kind"] = "page"
        elif r.status_code == 302:
            o.update(goes(r, q["b"]))
            if "code" in o["given"]:
                made["code"].append({**q, "uri": [q["of"], q["uri"]]})
        return o

    def goes(r, b):
        if b:
            for v in r.headers.getlist("Set-Cookie"):
                k, _, v = v.partition(";")[0].partition("=")
                jars[b][k] = v
        u = r.headers["Location"]
        uri, _, query = u.partition("#" if "#" in u else "?")
        d = {k: v[0] for k, v in parse_qs(query).items()}
        o = {"kind": "sent", "to": back(uri), "state": d.get("state", ""), "given": sorted(set(d) & {"code", "id_token", "access_token"})}
        if "code" in d:
            codes.append(d["code"])
        return o

    def page_token(s):
        if s["how"] == "junk":
            return "junk"
        q = "&".join([f"response_type=code&client_id={url(s['cid'])}&redirect_uri=https://evil.example.org/cb&scope=openid&state=s&nonce=n"])
        p = {"query": q, "authn_class_ref": "x", "return_uri": cb(s["cid"], 1), "iat": BASE + CLOCK.now, "exp": BASE + CLOCK.now + 600}
        if s["how"] == "client":  # A client makes its own
            return world.sign({**p, "iss": url(s["cid"])}, s["cid"] + "-app", typ="JWT")
        if s["how"] == "forged":
            return world.sign({**p, "iss": OP}, "z1", typ="JWT")
        if s["how"] == "idtoken":
            return ids[-1] if ids else "junk"
        if s["how"] == "cut":
            return pick(pages, s, "page")[:-3]
        return pick(pages, s, "page")

    def login(s):
        s["right"] = PASSWORDS.get(s["user"]) == s["pw"]
        d = {"token": page_token(s), "username": s["user"], "password": s["pw"]}
        if s["how"].startswith("no:"):
            d.pop(s["how"][3:])
        r = web.post("/verify/user", data=d)
        text, o = answer(r)
        if r.status_code == 302:
            o.update(goes(r, s["b"]))
            if "code" in o["given"]:
                made["code"].append(made["page"][s["page"] - 1] if s["page"] else None)
        return o

    def auth(s, d, head):
        """How the client proves who it is"""
        c, how = s["cid"], s["how"]
        s["secret"] = s["of"] if s["of"] in secrets else ""
        s["replay"] = ""
        secret = secrets.get(s["of"], "no-secret")
        if how == "basic":
            head["Authorization"] = "Basic " + base64.b64encode(f"{url(c)}:{secret}".encode()).decode()
        elif how == "post":
            d["client_secret"] = secret
        elif how in ("key", "aud", "old", "again"):
            p = {"iss": url(c), "sub": url(c), "aud": [OP + "/token"], "exp": BASE + CLOCK.now + 60, "iat": BASE + CLOCK.now, "jti": f"j{s['n']}"}
            if how == "aud":
                p["aud"] = ["https://other.example.org"]
            if how == "old":
                p["exp"] = BASE + CLOCK.now - 600
                p["iat"] = p["exp"] - 60
            if how == "again":
                p["jti"] = last["jti"] or p["jti"]
                s["replay"] = "used" if (c, p["jti"]) in last["used"] else "tried" if (c, p["jti"]) in last["all"] else ""
            last["jti"] = p["jti"]
            last["all"].add((c, p["jti"]))
            s["jti"] = p["jti"]
            d.update(client_assertion=world.sign(p, s["signer"], typ="JWT"), client_assertion_type=ASSERT)

    def exchange(s):
        re = s["grant"] == "refresh_token"
        c = pick(refresh if re else codes, s, "code")
        q = made["refresh" if re else "code"][s["code"] - 1] if s["code"] else None
        if q:  # What is right is what the client that asked would do, unless the step says so
            uri, cid = q["uri"], q["cid"]
        else:
            uri, cid = ["a", 1], "a"
        s["cid"] = s["cid"] or cid
        s["of"] = s["of"] or s["cid"]
        s["uri"] = s["uri"] or uri
        keys = next((x["app"] for x in case["clients"] if x["id"] == s["cid"]), ["z1"])
        s["signer"] = s["signer"] or keys[s["n"] % len(keys)]
        s["named"] = cid if s["named"] == "=" else s["named"] or s["cid"]
        d = {"grant_type": s["grant"], "client_id": url(s["named"])}
        if re:
            d["refresh_token"] = c + ("x" if s["bad"] == "cut" else "")
        else:
            d.update(code=c + ("x" if s["bad"] == "cut" else ""), redirect_uri=cb(*s["uri"]))
        head = {}
        auth(s, d, head)
        if s["bad"].startswith("no:"):
            d.pop(s["bad"][3:], None)
        r = web.post("/token", data=d, headers=head)
        text, o = answer(r)
        t = world.outcome(json.loads, text)[0] or {}
        if r.status_code == 200 and "access_token" in t:
            tokens.append(t["access_token"])
            last["used"].add((s["cid"], s.get("jti")))
            o.update(kind="tokens", scope=sorted(t.get("scope", "").split()), refresh=0, life=t.get("expires_in", 0), idt=[])
            if "refresh_token" in t:
                refresh.append(t["refresh_token"])
                o["refresh"] = len(refresh)
                made["refresh"].append(q)
            if "id_token" in t:
                ids.append(t["id_token"])
                h, p, good = payload(t["id_token"])
                aud = p["aud"] if isinstance(p["aud"], list) else [p["aud"]]
                o["idt"] = [{"iss": p["iss"] == OP, "aud": [name(x) for x in aud], "nonce": p.get("nonce", ""), "sig": good, "alg": h["alg"],
                             "iat": p["iat"] - BASE, "exp": p["exp"] - BASE, "sub": subs.setdefault(p["sub"], len(subs) + 1)}]
        elif r.status_code == 200:
            o["kind"] = "other"
        return o

    def userinfo(s):
        tok = {"idtoken": ids[-1] if ids else "x", "code": codes[-1] if codes else "x", "refresh": refresh[-1] if refresh else "x", "junk": "junk"}.get(
            s["how"]) or pick(tokens, s, "tok")
        if s["how"] == "forged":
            p = factory(tok).jwt.payload() if tok in tokens else {"iss": OP}
            tok = world.sign(p, "z1", typ="JWT")
        if s["how"] == "body":
            r = web.post("/userinfo", data={"access_token": tok})
        elif s["how"] == "none":
            r = web.get("/userinfo")
        else:
            r = web.get("/userinfo", headers={"Authorization": "Bearer " + tok})
        text, o = answer(r)
        if r.status_code == 200:
            good = True
            if text.startswith("ey"):
                _, d, good = payload(text)
                o["jwt"] = True
            else:
                d = world.outcome(json.loads, text)[0] or {}
                o["jwt"] = False
            o["kind"] = "other"
            if "sub" in d:
                who = [u for u in USERS if any(d.get(k) == v for k, v in USERS[u].items())]
                o.update(kind="info", sub=subs.setdefault(d["sub"], len(subs) + 1), who=who, sig=good,
                         claims=sorted(k for k in d if any(k in x for x in USERS.values()) and k != "sub"))
        return o

    def register(s):
        c = next(x for x in case["clients"] if x["id"] == s["cid"])
        tok = fed.ec(url(s["cid"]))[0]
        r = web.post("/registration", data=tok, content_type="application/entity-statement+jwt")
        text, o = answer(r)
        if r.status_code == 200 and text.startswith("ey"):
            md = factory(text).jwt.payload()["metadata"]["openid_relying_party"]
            o["kind"] = "registered"
            if md.get("client_secret"):
                secrets[c["id"]] = md["client_secret"]
            o["secret"] = bool(md.get("client_secret"))
        return o

    def noise(s):
        u = s["path"]
        kw = {"data": s["body"]} if s["method"] == "POST" else {"query_string": s["body"]}
        return answer(web.open(u, method=s["method"], **kw))[1]

    def jwks(s):
        text, o = answer(web.get("/jwks/" + s["use"]))
        ks = (world.outcome(json.loads, text)[0] or {}).get("keys", [])
        if o["status"] == 200:
            o.update(kind="keys" if ks else "other", keys=sorted(k.get("kid", "?") for k in ks), secret=private(ks))
        return o

    own = {k: sorted(x.kid for x in op[k].keyjar.get_issuer_keys("") if x.kty != "oct") for k in ("openid_provider", "federation_entity")}
    fns = {"jwks": jwks, "authz": authz, "login": login, "token": exchange, "userinfo": userinfo, "register": register, "noise": noise}
    steps = []
    with fed:
        for n, s in enumerate(case["steps"]):
            s = dict(s, n=n)
            if s["op"] == "tick":
                CLOCK.now += s["d"]
            elif s["op"] == "vouch":
                fed.ents[url("t")]["subs"].pop(url(s["cid"]), None)
                if s["on"]:
                    fed.ents[url("t")]["subs"][url(s["cid"])] = vouching(s["cid"], s["only"], case["life"])
            else:
                s["obs"] = fns[s["op"]](s)
            s["known"] = sorted(name(k) for k in cdb.keys())
            s.pop("body", None)
            steps.append(s)
    return {"auto": case["auto"], "life": case["life"], "script": SCRIPT, "own": own, "clients": case["clients"], "steps": steps}


NOISE = ["/authorization", "/token", "/userinfo", "/registration", "/verify/user", "/verify/user_pass_jinja", "/.well-known/openid-federation",
         "/jwks/openid_provider", "/jwks/federation_entity", "/jwks/other", "/.well-known/other"]


def rand_noise(rng):
    body = {}
    for _ in range(rng.randint(0, 3)):
        body[rng.choice(["client_id", "code", "grant_type", "token", "username", "password", "access_token", "request", "response_type", "state",
                         "client_assertion", "request_uri", "redirect_uri", "scope", "x"])] = rng.choice(
            ["", "x", SCRIPT, url("a"), OP, "a.b.c", "eyJhbGciOiJub25lIn0.e30.", "authorization_code", "code", "openid", "diana", "krall"])
    return {"op": "noise", "path": rng.choice(NOISE), "method": rng.choice(["GET", "POST"]), "body": body}


def rand_case(rng):
    clients = []
    for i in "abc":
        k = rng.choice([1, 1, 2])
        uris = sorted(rng.sample([1, 2], k))
        clients.append({"id": i, "uris": uris, "app": [i + "-app"] if rng.random() < 0.7 else [i + "-app", i + "-app2"],
                        "vouched": rng.random() < 0.85, "only": rng.choice([[], [], [1], [1, 2]]) if 1 in uris else [],
                        "pair": rng.random() < 0.4, "alg": rng.choice(["", "", "ES256"]), "ualg": rng.choice(["", "", "", "ES256", "RS256"])})
    cl = {c["id"]: c for c in clients}
    evil = rng.choice([0, 0.15, 0.4])
    moves = rng.random() < 0.4
    steps = []
    for _ in range(rng.randint(6, 16)):
        r = rng.random()
        bad = rng.random() < evil
        if r < 0.08:
            steps.append({"op": "tick", "d": rng.choice([1, 60, 100, 119, 121, 250, 605, 3000, 3500, 3700, 90000])})
        elif r < 0.11 and moves:
            i = rng.choice("abc")
            steps.append({"op": "vouch", "cid": i, "on": rng.random() < 0.6, "only": rng.choice([[], [1], [1, 2]]) if 1 in cl[i]["uris"] else []})
        elif r < 0.16:
            steps.append({"op": "register", "cid": rng.choice("abc")})
        elif r < 0.18:
            steps.append({"op": "jwks", "use": rng.choice(["openid_provider", "federation_entity", "other"])})
        elif r < 0.24 and evil:
            steps.append(rand_noise(rng))
        elif r < 0.45 or not steps:
            c = rng.choice("aaabbc")
            q = {"cid": c, "of": c, "uri": rng.choice(cl[c]["uris"]), "rtype": "code", "state": f"st{rng.randrange(99)}", "nonce": f"no{rng.randrange(99)}",
                 "scope": ["openid", *rng.sample(["email", "profile", "phone", "offline_access"], rng.choice([0, 1, 2]))],
                 "signer": rng.choice(["", rng.choice(cl[c]["app"])]), "bad": "", "b": rng.choice([0, 1, 1, 1, 2]), "jar": "", "prompt": ""}
            if "offline_access" not in q["scope"]:
                q["prompt"] = rng.choice(["", "", "", "login", "" if q["signer"] else "none"])
            if bad:
                k = rng.randrange(8)
                if k == 7:
                    q["jar"] = rng.choice(["cut", "junk"])
                elif k == 0:
                    q["uri"] = rng.choice([0, 2, 8, 9])
                elif k == 1:
                    q["of"] = rng.choice("abc")
                elif k == 2:
                    q["prompt"] = ""
                    q["signer"] = rng.choice(["z1", "a-app", "b-app", c + "1"])
                elif k == 3:
                    q["rtype"] = rng.choice(["token", "id_token", "code id_token", "x"])
                elif k == 4:
                    q["cid"] = "x"
                elif k == 5:
                    q["bad"] = rng.choice(["no:client_id", "no:redirect_uri", "no:response_type"])
                else:
                    q["bad"] = "script"
            steps.append({"op": "authz", "req": q})
            if rng.random() < 0.85:
                steps.append(rand_login(rng, False))
                if evil and rng.random() < 0.3:
                    steps += theft(rng, c)
                if rng.random() < 0.85:
                    steps.append(rand_token(rng, False))
                    if rng.random() < 0.85:
                        steps.append({"op": "userinfo", "tok": -1, "how": rng.choice(["header", "body"])})
        elif r < 0.6:
            steps.append(rand_login(rng, bad))
        elif r < 0.85:
            steps.append(rand_token(rng, bad))
        else:
            how = rng.choice(["idtoken", "code", "refresh", "junk", "forged", "none"]) if bad else rng.choice(["header", "body"])
            steps.append({"op": "userinfo", "tok": which(rng), "how": how})
    return {"auto": rng.random() < 0.85, "life": rng.choice([100, 1000]) if moves else 86400 * 30, "cookies": rng.choice(["", "sign", "both", "both"]), "clients": clients, "steps": steps}


def which(rng):
    return -1 if rng.random() < 0.6 else rng.randrange(12)


def rand_login(rng, bad):
    u = rng.choice(list(PASSWORDS))
    s = {"op": "login", "page": which(rng), "user": u, "pw": PASSWORDS[u], "how": "", "cid": "a", "b": rng.choice([0, 1, 1, 1, 2])}
    if bad:
        k = rng.randrange(4)
        if k == 0:
            s["pw"] = rng.choice(["", "x", PASSWORDS["diana" if u == "babs" else "babs"]])
        elif k == 1:
            s["user"] = rng.choice(["nobody", "", SCRIPT])
        else:
            s["how"] = rng.choice(["junk", "client", "forged", "idtoken", "cut", "no:token", "no:username", "no:password"])
            s["cid"] = rng.choice("abc")
    return s


def theft(rng, c):
    """Another client, that is who it says it is, wants the code"""
    o = rng.choice([x for x in "abc" if x != c])
    s = rand_token(rng, False)
    s.update(grant="authorization_code", code=-1, cid=o, named=rng.choice(["=", "=", "=", "", c, o]))
    return ([{"op": "register", "cid": o}] if rng.random() < 0.7 else []) + [s]


def rand_token(rng, bad):
    """What is empty is what it should be"""
    s = {"op": "token", "grant": "authorization_code", "code": which(rng), "cid": "", "of": "", "uri": [], "how": rng.choice(["key", "key", "post"]),
         "signer": "", "bad": "", "named": ""}
    if rng.random() < 0.12:
        s.update(grant="refresh_token", code=which(rng))
    if bad:
        k = rng.randrange(9)
        o = rng.choice("abc")
        if k >= 7:
            s["named"] = rng.choice(["=", "=", o])  # Someone else names the right one
            s["cid"] = rng.choice([o, o, ""])
        elif k == 0:
            s.update(cid=o)
        elif k == 1:
            s["of"] = o
        elif k == 2:
            s["signer"] = rng.choice(["z1", "a-app", "b-app", "c-app", "a1", "b1", o + "-app2"])
        elif k == 3:
            s["uri"] = [rng.choice("aabc"), rng.choice([0, 1, 2, 9])]
        elif k == 4:
            s["how"] = rng.choice(["none", "aud", "old", "again", "basic"])
        elif k == 5:
            s["bad"] = rng.choice(["cut", "no:code", "no:client_id", "no:grant_type", "no:redirect_uri", "no:client_assertion"])
        else:
            s["grant"] = rng.choice(["password", "client_credentials", "refresh_token"])
    return s


def run(ctx):
    ctx.model_check("GateMC", "GateQuick.cfg" if ctx.quick else "GateThorough.cfg")
    applib.make_keys()
    world.rsa("op-app")
    cases = [rand_case(ctx.rng) for _ in range(400 if ctx.quick else 7000)]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("GateTrace", pairs)
    ctx.count("steps", [s["op"] + (":" + s["obs"]["kind"] if "obs" in s else "") for p in pairs for s in p[1]["steps"]])
    ctx.count("sent", [s["req"]["prompt"] + ":" + ",".join(s["obs"]["given"]) for p in pairs for s in p[1]["steps"]
                       if s["op"] == "authz" and s["obs"]["kind"] == "sent"])
    ctx.count("named", [s["how"] + ":" + s["obs"]["kind"] for p in pairs for s in p[1]["steps"] if s["op"] == "token" and s["named"] != s["cid"]])
    ctx.count("variants", [s["op"] + ":" + (s.get("how") or s.get("bad") or s.get("path") or "") for p in pairs for s in p[1]["steps"]])


def replay(ctx, case):
    ctx.judge("GateTrace", ctx.execute(run_case, [case]))
