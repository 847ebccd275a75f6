"""Stand-in for ``idpyoidc.key_import`` (absent from the installed idpyoidc 5.0.0)."""
import json, sys, types


def import_jwks(keyjar, jwks, entity_id=""):
    """Add the keys of a JWKS to what the key jar holds for entity_id, skipping known keys."""
    from cryptojwt.key_bundle import KeyBundle
    try:
        old = list(keyjar.get_issuer_keys(entity_id))
    except KeyError:
        old = []
    kb = KeyBundle(keys=[dict(k) for k in jwks["keys"]])
    known = {(k.kid, k.use) for k in old if k.kid}
    new = [k for k in kb if (k.kid, k.use) not in known and k not in old]
    if new:
        kb.set(new)
        keyjar.add_kb(entity_id, kb)
    return keyjar


def import_jwks_as_json(keyjar, jwks, entity_id=""):
    return import_jwks(keyjar, json.loads(jwks), entity_id)


def import_jwks_from_file(keyjar, filename, entity_id=""):
    with open(filename) as fp:
        return import_jwks_as_json(keyjar, fp.read(), entity_id)


def add_kb(keyjar, entity_id, key_bundle):
    keyjar.add_kb(entity_id, key_bundle)
    return keyjar


def issuer_keys(keyjar, entity_id):
    return keyjar.get_issuer_keys(entity_id)


def install():
    if "idpyoidc.key_import" in sys.modules:
        return
    try:
        import idpyoidc.key_import  # noqa
        return
    except ModuleNotFoundError:
        pass
    m = types.ModuleType("idpyoidc.key_import")
    for f in (import_jwks, import_jwks_as_json, import_jwks_from_file, add_kb, issuer_keys):
        setattr(m, f.__name__, f)
    sys.modules["idpyoidc.key_import"] = m
    import idpyoidc
    idpyoidc.key_import = m


install()
