"""Pieces shared by the drivers: clock, keys, signed statements, and a simulated federation."""
import base64
import json
import time as _time
from urllib.parse import parse_qs
from urllib.parse import unquote
from urllib.parse import urlparse

from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jws.jws import JWS

# Times in traces are relative to this
BASE = int(_time.time())


class Clock:
    """All of the code under test gets the time from time.time(), or idpyoidc's time_util."""

    def __init__(self):
        self.now = 0
        self.drift = None  # A second passes after this many more times of asking what the time is
        self._real = _time.time
        self._saved = None

    def install(self, now=0):
        import datetime
        import idpyoidc.time_util as tu
        self.now = now
        self.drift = None
        _time.time = lambda: float(BASE + self.read())
        clock = self

        class FakeDatetime(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return datetime.datetime.fromtimestamp(BASE + clock.read(), tz)

        if self._saved is None:
            self._saved = tu.datetime
        tu.datetime = FakeDatetime

    def read(self):
        if self.drift is not None:
            self.drift -= 1
            if self.drift < 0:
                self.now += 1
                self.drift = None
        return self.now

    def uninstall(self):
        import idpyoidc.time_util as tu
        _time.time = self._real
        if self._saved is not None:
            tu.datetime = self._saved


CLOCK = Clock()

_KEYS = {}


def key(name):
    """The key with that name. Names are '<owner>-<n>'. The kid is the name, or what is before a ~ in it."""
    if name.endswith("-rsa"):
        return rsa(name)
    if name not in _KEYS:
        _KEYS[name] = new_ec_key("P-256", kid=name.split("~")[0], use="sig")
    return _KEYS[name]


def key_name(k):
    """The name of a key, which others may have the same kid as"""
    return next((n for n, x in _KEYS.items() if x.kid == k.kid and x.thumbprint("SHA-256") == k.thumbprint("SHA-256")), "?" + k.kid)


def pub(*names):
    return {"keys": [key(n).serialize(private=False) for n in names]}


def b64(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=").decode()


def sign(payload, signer, kid=None, alg="ES256", tamper=None, typ="entity-statement+jwt"):
    """signer: key name. kid: what the header says. tamper: claims changed after signing"""
    kid = signer if kid is None else kid
    body = json.dumps(payload)
    if alg == "none":
        head = b64(json.dumps({"alg": "none", "kid": kid, "typ": typ}).encode())
        tok = f"{head}.{b64(body.encode())}."
    else:
        from cryptojwt.jwk.ec import ECKey
        k = key(signer)
        if alg == "ES256" and k.kty == "RSA":
            alg = "RS256"
        if kid != signer:
            k = ECKey(**{**k.serialize(private=True), "kid": kid})
        tok = JWS(body, alg=alg, kid=kid, typ=typ).sign_compact([k])
    if tamper:
        h, p, s = tok.split(".")
        payload = {**payload, **tamper}
        tok = f"{h}.{b64(json.dumps(payload).encode())}.{s}"
    return tok


def statement(iss, sub, signer, jwks, exp, iat=0, now=0, **claims):
    """jwks: key names. exp relative to BASE. claims: the rest"""
    opt = {k: claims.pop(k) for k in ("kid", "alg", "tamper") if k in claims}
    payload = {"iss": iss, "sub": sub, "iat": BASE + iat, "exp": BASE + exp}
    if jwks is not None:
        payload["jwks"] = pub(*jwks)
    payload.update(claims)
    return sign(payload, signer, **opt)


KEY_CONF = {"key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]}]}


class Response:
    def __init__(self, status, text="", ctype="application/entity-statement+jwt"):
        self.status_code = status
        self.text = text
        self.headers = {"Content-Type": ctype, "content-type": ctype}
        self.content = text.encode()
        self.url = ""
        self.reason = ""

    def json(self):
        return json.loads(self.text)


def make_entity(entity_id, anchors=None, httpc=None, **kw):
    """anchors: {entity_id: [key names]}"""
    from fedservice.utils import make_federation_entity
    args = dict(entity_id=entity_id, key_config=KEY_CONF,
                trust_anchors={a: pub(*ks) for a, ks in (anchors or {}).items()})
    args.update(kw)
    fe = make_federation_entity(**args)
    if httpc:
        set_httpc(fe, httpc)
    return fe


def set_httpc(fe, httpc):
    fe.httpc = httpc
    for unit in (fe.client, fe.server, fe.function):
        if unit is not None:
            unit.httpc = httpc
    c = getattr(getattr(fe, "client", None), "client", None)


_RSA = {}


def rsa(name):
    if name not in _RSA:
        from cryptojwt.jwk.rsa import new_rsa_key
        _RSA[name] = new_rsa_key(kid=name, use="sig")
    return _RSA[name]


def give_key(fe, k):
    """A key the entity can sign with"""
    from cryptojwt.key_bundle import KeyBundle
    for i in ("", fe.entity_id):
        kb = KeyBundle()
        kb.append(k)
        fe.keyjar.add_kb(i, kb)


def own_keys(fe, entity_id):
    return {k.kid: k for k in fe.keyjar.get_issuer_keys(entity_id)}


def outcome(fn, *args, **kw):
    """(value, None) or (None, name of exception)"""
    try:
        return fn(*args, **kw), None
    except Exception as err:
        return None, type(err).__name__


# ------------------------------------------------------------------------------------------- net

class Net:
    """Answers every HTTP request of the process. handler(method, url, body, headers) ->
    (status, content type, text), or an exception to raise."""

    def __init__(self):
        self.handler = None
        self._saved = None
        self.log = []

    def install(self, handler):
        import requests
        from requests.adapters import HTTPAdapter
        self.handler = handler
        self.log = []
        if self._saved is None:
            self._saved = HTTPAdapter.send
        net = self

        def send(adapter, request, **kwargs):
            body = request.body
            if isinstance(body, bytes):
                body = body.decode()
            net.log.append((request.method, request.url, body))
            status, ctype, text = net.handler(request.method, request.url, body, request.headers)
            resp = requests.Response()
            resp.status_code = status
            resp._content = text.encode()
            resp.encoding = "utf-8"
            resp.headers["Content-Type"] = ctype
            resp.url = request.url
            resp.request = request
            resp.reason = ""
            return resp

        HTTPAdapter.send = send

    def uninstall(self):
        if self._saved is not None:
            from requests.adapters import HTTPAdapter
            HTTPAdapter.send = self._saved


NET = Net()
ES_TYPE = "application/entity-statement+jwt"
WELL_KNOWN = "/.well-known/openid-federation"


class Federation:
    """A simulated federation.

    ents: {id: {"keys": [key names], "hints": [..], "metadata": {...}, "life": seconds,
                "subs": {id: {"keys": [...], "life": seconds, ...claims}}, "extra": {...}}}
    Statements are issued when they are asked for. What is served is logged in served:
    {"n": serial, "type": "ec"/"es", "iss", "sub", "exp", "hints", ...}
    """

    def __init__(self, ents):
        self.ents = ents
        self.served = []
        self.by_token = {}
        self.hook = None

    def now(self):
        return CLOCK.now

    def ec(self, eid):
        e = self.ents[eid]
        md = {"federation_entity": {"federation_fetch_endpoint": f"{eid}/fetch",
                                    "federation_list_endpoint": f"{eid}/list"}}
        if e.get("leaf"):
            md = {}
        for t, m in (e.get("metadata") or {}).items():
            md[t] = {**md.get(t, {}), **m}
        claims = {"metadata": md}
        if e.get("hints") is not None:
            claims["authority_hints"] = list(e["hints"])
        claims.update(e.get("extra") or {})
        exp = self.now() + e.get("life", 86400)
        signer = e.get("signer", e["keys"][0])
        tok = statement(eid, eid, signer, e.get("ec_keys", e["keys"]), exp, iat=self.now(),
                        **{**claims, **(e.get("sign") or {})})
        return tok, {"type": "ec", "iss": eid, "sub": eid, "exp": exp, "signer": signer,
                     "jwks": list(e.get("ec_keys", e["keys"])),
                     "hints": list(e["hints"]) if e.get("hints") is not None else [],
                     "hashints": e.get("hints") is not None}

    def es(self, iss, sub):
        e = self.ents[iss]
        s = e.get("subs", {}).get(sub)
        if s is None:
            return None, None
        claims = {k: v for k, v in s.items() if k not in ("keys", "life", "sign", "signer")}
        exp = self.now() + s.get("life", 86400)
        signer = s.get("signer", e.get("signer", e["keys"][0]))
        tok = statement(iss, sub, signer, s["keys"], exp, iat=self.now(),
                        **{**claims, **(s.get("sign") or {})})
        return tok, {"type": "es", "iss": iss, "sub": sub, "exp": exp, "signer": signer,
                     "jwks": list(s["keys"]), "hints": [], "hashints": False}

    def log(self, tok, doc):
        doc["n"] = len(self.served) + 1
        doc["at"] = self.now()
        self.served.append(doc)
        self.by_token[tok] = doc["n"]
        return tok

    def handler(self, method, url, body, headers):
        if self.hook:
            r = self.hook(method, url, body, headers)
            if r is not None:
                return r
        p = urlparse(url)
        base, _, q = url.partition("?")
        if base.endswith(WELL_KNOWN):
            eid = base[: -len(WELL_KNOWN)]
            e = self.ents.get(eid)
            if e is None or e.get("down"):
                return 404, "text/plain", "not found"
            tok, doc = self.ec(eid)
            return 200, ES_TYPE, self.log(tok, doc)
        query = {k: v[0] for k, v in parse_qs(q).items()}
        if base.endswith("/fetch"):
            eid = base[: -len("/fetch")]
            e = self.ents.get(eid)
            if e is None or e.get("down"):
                return 404, "text/plain", "not found"
            sub = query.get("sub", eid)
            if sub == eid:
                tok, doc = self.ec(eid)
                doc["type"] = "es"
            else:
                tok, doc = self.es(eid, sub)
            if tok is None:
                return 404, "text/plain", "unknown subject"
            return 200, ES_TYPE, self.log(tok, doc)
        if base.endswith("/list"):
            eid = base[: -len("/list")]
            e = self.ents.get(eid)
            if e is None or e.get("down"):
                return 404, "text/plain", "not found"
            res = []
            for sub, s in e.get("subs", {}).items():
                c = self.ents.get(sub, {})
                if "entity_type" in query and (query["entity_type"] not in (c.get("metadata") or {})
                                               or (eid, sub) in getattr(self, "hide", ())):
                    continue
                if query.get("intermediate", "").lower() == "true" and not c.get("subs"):
                    continue
                res.append(sub)
            return 200, "application/json", json.dumps(res)
        return 404, "text/plain", "no such page"

    def __enter__(self):
        NET.install(self.handler)
        return self

    def __exit__(self, *a):
        NET.uninstall()
