"""Real OpenID providers, OAuth2 authorization servers and clients, in a simulated federation"""
import copy
import os
import tempfile

import world

CRYPT = {"kwargs": {"keys": {"key_defs": [{"type": "OCT", "use": ["enc"], "kid": "password"},
                                          {"type": "OCT", "use": ["enc"], "kid": "salt"}]}, "iterations": 1}}
EC_KEYS = {"key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]}]}
TOKENS = {
    "jwks_def": {"read_only": True, "key_defs": [{"type": "oct", "bytes": "24", "use": ["enc"], "kid": "code"}]},
    "code": {"lifetime": 600, "kwargs": {"crypt_conf": CRYPT}},
    "token": {"class": "idpyoidc.server.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600}},
    "refresh": {"class": "idpyoidc.server.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600}},
    "id_token": {"class": "idpyoidc.server.token.id_token.IDToken", "kwargs": {}},
}


def op_config(reg_types):
    return {
        "httpc_params": {"verify": False, "timeout": 1},
        "preference": {
            "subject_types_supported": ["public", "pairwise", "ephemeral"],
            "grant_types_supported": ["authorization_code", "implicit", "refresh_token"],
            "response_types_supported": ["code", "id_token", "code id_token"],
            "client_registration_types_supported": list(reg_types),
            "request_parameter_supported": True,
        },
        "token_handler_args": copy.deepcopy(TOKENS),
        "endpoint": {
            "registration": {"path": "registration", "class": "fedservice.appserver.oidc.registration.Registration",
                             "kwargs": {"client_auth_method": None}},
            "authorization": {"path": "authorization", "class": "fedservice.appserver.oidc.authorization.Authorization",
                              "kwargs": {"response_types_supported": ["code", "id_token", "code id_token"],
                                         "response_modes_supported": ["query", "fragment", "form_post"],
                                         "claims_parameter_supported": True, "request_parameter_supported": True,
                                         "request_uri_parameter_supported": True}},
            "token": {"path": "token", "class": "idpyoidc.server.oidc.token.Token",
                      "kwargs": {"client_authn_method": ["client_secret_post", "client_secret_basic", "client_secret_jwt",
                                                         "private_key_jwt"]}},
            "userinfo": {"path": "userinfo", "class": "idpyoidc.server.oidc.userinfo.UserInfo", "kwargs": {}},
        },
        "template_dir": "template",
        "session_params": {"encrypter": CRYPT},
    }


def as_config(reg_types):
    c = op_config(reg_types)
    c["server_type"] = "oauth2"
    c["preference"] = {"grant_types_supported": ["authorization_code", "implicit", "refresh_token"],
                       "response_types_supported": ["code"],
                       "client_registration_types_supported": list(reg_types)}
    del c["token_handler_args"]["id_token"]
    c["endpoint"] = {
        "registration": {"path": "registration", "class": "fedservice.appserver.oauth2.registration.Registration", "kwargs": {}},
        "authorization": {"path": "authorization", "class": "fedservice.appserver.oauth2.authorization.Authorization",
                          "kwargs": {"response_types_supported": ["code"]}},
        "pushed_authorization": {"path": "par", "class": "fedservice.appserver.oauth2.pushed_authorization.PushedAuthorization",
                                 "kwargs": {"client_authn_method": ["client_secret_post", "client_secret_basic", "client_secret_jwt",
                                                                    "private_key_jwt"]}},
        "token": {"path": "token", "class": "idpyoidc.server.oauth2.token.Token", "kwargs": {}},
    }
    return c


def server(kind, eid, anchors, hints, reg_types=("automatic", "explicit"), signer="op", authn=None, more=None):
    """kind: openid_provider or oauth_authorization_server. authn: how clients have to authenticate at the
    authorization endpoint. more: more configuration"""
    from fedservice.defaults import federation_services
    from fedservice.utils import make_federation_combo
    conf = op_config(reg_types) if kind == "openid_provider" else as_config(reg_types)
    conf.update(more or {})
    if authn:
        conf["endpoint"]["authorization"]["kwargs"]["client_authn_method"] = list(authn)
    kwargs = {"config": conf, "key_conf": {"key_defs": EC_KEYS["key_defs"]}}
    c = make_federation_combo(
        eid, preference={"organization_name": "OP"}, authority_hints=hints, endpoints=["entity_configuration"],
        key_config=EC_KEYS, trust_anchors={a: world.pub(*ks) for a, ks in anchors.items()},
        services=federation_services("entity_configuration", "entity_statement"),
        httpc_params={"verify": False, "timeout": 1},
        entity_type={kind: {"class": "fedservice.appserver.ServerEntity", "kwargs": kwargs}})
    world.give_key(c["federation_entity"], world.rsa(signer))
    return c


def client(kind, eid, anchors, hints, signer, contacts=(), uris=(), where="client"):
    """kind: openid_relying_party or oauth_client. where: the part of it that has the registration service"""
    from fedservice.defaults import federation_services
    from fedservice.utils import make_federation_combo
    sub = "oidc" if kind == "openid_relying_party" else "oauth2"
    conf = {"client_id": eid, "client_secret": "a longesh password", "redirect_uris": list(uris) or [eid + "/cb"],
            "client_type": sub, "preference": {"grant_types": ["authorization_code"], "contacts": list(contacts)}}
    fed = federation_services("entity_configuration", "entity_statement")
    srv = {"authorization": {"class": f"fedservice.appclient.{sub}.authorization.Authorization"}}
    (srv if where == "client" else fed)["registration"] = {"class": f"fedservice.appclient.{sub}.registration.Registration"}
    c = make_federation_combo(
        eid, preference={"organization_name": "RP"}, authority_hints=hints, endpoints=["entity_configuration"],
        key_config=EC_KEYS, trust_anchors={a: world.pub(*ks) for a, ks in anchors.items()}, services=fed,
        httpc_params={"verify": False, "timeout": 1},
        entity_type={kind: {"class": "fedservice.appclient.ClientEntity",
                            "kwargs": {"config": conf, "services": srv, "entity_type": kind,
                                       "key_conf": {"key_defs": EC_KEYS["key_defs"]}}}})
    world.give_key(c["federation_entity"], world.rsa(signer))
    return c


# -------------------------------------------------------------------------------------- worlds

TYPES = {"rp": "openid_relying_party", "op": "openid_provider", "fe": "federation_entity", "oc": "oauth_client"}
TBACK = {v: k for k, v in TYPES.items()}
OP = "https://op.example.org"
# What policies are about: something that everyone knows of, and something that only the federation does
CLAIMS = ("contacts", "x_tags")


def values(md):
    """The values of the claims, which are to be the same"""
    vs = [sorted(set(md.get(c) or [])) for c in CLAIMS]
    return vs[0] if all(v == vs[0] for v in vs) else ["differs", *[x for v in vs for x in v]]


def url(e):
    return f"https://{e}.example.org" if e else ""


def name(u):
    return u[len("https://"):-len(".example.org")] if u else ""


def metadata(types, own, eid, uris=None, jwks=None, good=True):
    """own: {type: [values]}"""
    md = {}
    for t in types:
        m = {c: list(own[t]) for c in CLAIMS} if own.get(t) else {}
        if t in ("rp", "oc"):
            m.update(redirect_uris=list(uris or []), response_types=["code"])
            if jwks:
                m["jwks"] = world.pub(*jwks)
        elif t == "op":
            m.update(issuer=eid, authorization_endpoint=f"{eid}/authz")
        md[TYPES[t]] = m
    return md


def build(w):
    """The federation of a world. See rand_world"""
    ents = {}
    for e in w["ents"]:
        eid = url(e["id"])
        md = metadata(e["types"], e.get("own", {}), eid, e.get("uris"), e.get("app"))
        ents[eid] = {"keys": list(e["keys"]), "signer": e["signer"], "metadata": md, "leaf": e["leaf"],
                     "hints": [url(h) for h in e["hints"]] or None, "life": e["life"], "subs": {}}
    for x in w["edges"]:
        pol = {TYPES[t]: {c: {"add": vs} for c in CLAIMS} for t, vs in x["add"].items()}
        ents[url(x["sup"])]["subs"][url(x["sub"])] = {"keys": list(x["keys"]), "life": x["life"],
                                                      **({"metadata_policy": pol} if pol else {})}
    return world.Federation(ents)


def flat(x):
    return [{"t": t, "v": v} for t, vs in x.items() for v in vs]


def trace_world(w, known):
    return {"known": known, "ents": [{"id": e["id"], "signer": e["signer"], "hints": e["hints"]} for e in w["ents"]],
            "edges": [{"sup": x["sup"], "sub": x["sub"], "keys": x["keys"], "add": flat(x["add"]), "dead": x["life"] < 0}
                      for x in w["edges"]]}


LIVES = [350, 1000, 86400, 86400 * 3]


def rand_adds(rng, types):
    return {t: [f"v{rng.randrange(9)}" for _ in range(rng.randint(1, 2))]
            for t in rng.sample(types, rng.choice([0, 1, 1, len(types)]))}


def rand_world(rng, broken, leaves, types):
    anchors = ["t", "u"] if rng.random() < 0.6 else ["t"]
    ents, edges, ups = [], [], []

    def keys(i):
        return [f"{i}{n}" for n in range(1, rng.choice([2, 2, 3]))]

    for a in anchors:
        ents.append({"id": a, "keys": keys(a), "signer": a + "1", "hints": [], "types": ["fe"], "leaf": False,
                     "life": rng.choice(LIVES)})
        ups.append(a)
    for i in ["m", "n"][: rng.randint(0, 2)] + leaves:
        leaf = i in leaves
        hints = rng.sample(ups, rng.randint(1, min(3, len(ups))))
        e = {"id": i, "keys": keys(i), "hints": hints, "leaf": leaf, "life": rng.choice(LIVES),
             "types": rng.choice(types) if leaf else ["fe"]}
        e["signer"] = rng.choice(e["keys"])
        if leaf:
            e["own"] = {t: ["own" + i + t] for t in e["types"]}
            e["uris"] = [f"https://{i}.example.org/cb"]
            e["app"] = [i + "-app"]
        ents.append(e)
        for sup in hints:
            r = rng.random()
            if broken and r < 0.1:
                continue
            edges.append({"sup": sup, "sub": i, "keys": ["z1"] if broken and r < 0.2 else e["keys"],
                          "life": -1 if broken and r > 0.9 else rng.choice(LIVES),
                          "add": rand_adds(rng, ["rp", "oc", "fe"])})
        if not leaf:
            ups.append(i)
    return {"ents": ents, "edges": edges}


def rand_change(rng, w):
    w = copy.deepcopy(w)
    for x in w["edges"]:
        if rng.random() < 0.4:
            x.update(add=rand_adds(rng, ["rp", "oc", "fe"]), life=rng.choice(LIVES))
        if rng.random() < 0.15:
            x["keys"] = ["z1"]
    return w


def make_keys():
    for n in ["a", "op"]:
        world.key(n + "-rsa")
    for n in "t u m n a b c z op".split():
        for q in "123":
            world.key(n + q)
        world.key(n + "-app")
        world.key(n + "-app2")
        world.key(n + "-app~2")
    world.rsa("op")
    for n in "abc":
        world.rsa("rp-" + n)
