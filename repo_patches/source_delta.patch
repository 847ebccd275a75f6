From 914401979964d053caa26a2354fc3d1d370b78b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 01/90] fix: enforce max_path_length and inherited naming
 constraints on every statement of a chain

---
 src/fedservice/entity_statement/constraints.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 289c34c..757b316 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -136,13 +136,13 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
     }
 
     for statement in trust_chain[:-1]:  # All but the last
-        try:
-            _constraints = statement['constraints']
-        except KeyError:
-            continue
+        # A statement without constraints of its own is still bound by those of its superiors
+        _constraints = statement.get('constraints') or {}
 
         current_max_path_length = calculate_path_length(_constraints, current_max_path_length,
                                                         max_assigned)
+        if 'max_path_length' in _constraints:
+            max_assigned = True
 
         if current_max_path_length < 0:
             return False
-- 
2.43.0


From 08c8c83529d752ab396fb939c589f97af028e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 02/90] fix: naming constraints that only state one of
 permitted/excluded

---
 src/fedservice/entity_statement/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 757b316..624996f 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -85,7 +85,7 @@ def add_constraints(new_constraints: dict, naming_constraints: dict):
 
             continue
         else:
-            if not new_constraints[key]:
+            if not new_constraints.get(key):
                 continue
 
         naming_constraints[key] = update_specs(new_constraints[key], naming_constraints[key])
-- 
2.43.0


From 28feb3d89f6d11279745350250974cce8b238b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 03/90] fix: naming constraints only regard the host part of an
 entity identifier

---
 src/fedservice/entity_statement/constraints.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 624996f..789d6f5 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -1,3 +1,4 @@
+import re
 from typing import List
 from typing import Union
 
@@ -36,9 +37,14 @@ def remove_scheme(url):
         raise ValueError('Wrong scheme: %s', url)
 
 
+def host_part(url):
+    # Naming constraints apply to the host, not to port, path, query or fragment
+    return re.split('[:/?#]', remove_scheme(url), maxsplit=1)[0].lower()
+
+
 def more_specific(a, b):
-    a_part = remove_scheme(a).split('.')
-    b_part = remove_scheme(b).split('.')
+    a_part = host_part(a).split('.')
+    b_part = host_part(b).split('.')
     if len(a_part) >= len(b_part):
         a_part.reverse()
         b_part.reverse()
-- 
2.43.0


From a3d9c28b53e20a4c286426789e62a9baec569d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 04/90] fix: a subordinate can not lift a superior's name
 exclusion

---
 src/fedservice/entity_statement/constraints.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 789d6f5..62f80cb 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -140,6 +140,7 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
         "permitted": None,
         "excluded": None
     }
+    excluded_by_superiors = []
 
     for statement in trust_chain[:-1]:  # All but the last
         # A statement without constraints of its own is still bound by those of its superiors
@@ -154,11 +155,13 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
             return False
 
         naming_constraints = update_naming_constraints(_constraints, naming_constraints)
+        # What a superior has excluded stays excluded, a subordinate can not re-admit it
+        excluded_by_superiors.extend(
+            (_constraints.get('naming_constraints') or {}).get('excluded') or [])
 
         # if explicitly excluded return False
-        if 'excluded' in naming_constraints and naming_constraints['excluded']:
-            if excluded(statement['sub'], naming_constraints['excluded']):
-                return False
+        if excluded(statement['sub'], excluded_by_superiors):
+            return False
 
         # If there is a list of permitted it must be in there
         if 'permitted' in naming_constraints and naming_constraints['permitted']:
@@ -168,9 +171,8 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
     # Now check the leaf entity
     statement = trust_chain[-1]
     # if explicitly excluded return False
-    if 'excluded' in naming_constraints and naming_constraints['excluded']:
-        if excluded(statement['sub'], naming_constraints['excluded']):
-            return False
+    if excluded(statement['sub'], excluded_by_superiors):
+        return False
 
     # If there is a list of permitted it must be in there
     if 'permitted' in naming_constraints and naming_constraints['permitted']:
-- 
2.43.0


From 569b3e54d23d015d004ab391c71692a6816a444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 05/90] fix: stop following authority hints that loop

---
 src/fedservice/entity/function/trust_chain_collector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 6f3a9ab..c6909a4 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -257,6 +257,7 @@ class TrustChainCollector(Function):
         for authority in entity_configuration['authority_hints']:
             if authority in seen:  # loop ?!
                 logger.warning(f"Loop detected at {authority}")
+                continue
             superior[authority] = self.collect_branch(entity_id, authority, seen,
                                                       max_superiors, stop_at=stop_at)
 
-- 
2.43.0


From a48f4a5c9e698020ad00e245302a0793bfad9ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 06/90] fix: trust anchors of one entity leak to others through
 the shared default configuration

---
 src/fedservice/entity/function/trust_chain_collector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index c6909a4..7f58d7b 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -75,7 +75,9 @@ class TrustChainCollector(Function):
                  **kwargs
                  ):
         Function.__init__(self, upstream_get)
-        self.trust_anchors = trust_anchors
+        # A copy, such that adding a trust anchor to this entity doesn't add it to every entity
+        # configured from the same defaults
+        self.trust_anchors = dict(trust_anchors)
         self.allowed_delta = allowed_delta
         self.config_cache = ESCache(allowed_delta=allowed_delta)
         self.entity_statement_cache = ESCache(allowed_delta=allowed_delta)
-- 
2.43.0


From 8cf999e0f1c30700c6a95c5c1aa9658082c772df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 07/90] fix: only a configured trust anchor, or the entity
 itself, can anchor a trust chain

---
 src/fedservice/entity/function/verifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 6f698d0..3a989d9 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -25,7 +25,9 @@ class TrustChainVerifier(Function):
         payload = _jwt.jwt.payload()
         _federation_entity = get_federation_entity(self)
         if _federation_entity:
-            if payload['iss'] not in _federation_entity.keyjar:
+            # Having an entity's keys, from having dealt with it before, does not make it an anchor
+            if payload['iss'] != _federation_entity.entity_id and \
+                    payload['iss'] not in _federation_entity.trust_anchors:
                 logger.warning(
                     f"Trust chain ending in a trust anchor I do not know: {payload['iss']}", )
                 return False
-- 
2.43.0


From 7143010fa9291adc5a6d427b6af853bc5b132f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 08/90] fix: verify a registration response with keys of an
 entity that has a trust chain to the chosen anchor

---
 .../appclient/oauth2/registration.py          | 29 +++++++++-----
 src/fedservice/appclient/oidc/registration.py | 39 ++++++++++++-------
 2 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index bbe2e7d..bbad1bc 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -1,10 +1,12 @@
 import logging
 from typing import Optional
 
+from cryptojwt import JWT
 from cryptojwt import KeyJar
 from idpyoidc.client.exception import ResponseError
 from idpyoidc.client.oidc import registration
 from idpyoidc.client.rp_handler import RPHandler
+from idpyoidc.key_import import import_jwks
 from idpyoidc.message.oauth2 import OauthClientInformationResponse
 from idpyoidc.message.oauth2 import OauthClientMetadata
 from idpyoidc.message.oauth2 import ResponseMessage
@@ -120,15 +122,22 @@ class Registration(registration.Registration):
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
-    def _signature_verifies(self, entity_id, trust_anchor, federation_entity):
-        _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                          entity_id=entity_id,
-                                          stop_at=trust_anchor)
-        if not _chains:
-            return False
-
-        _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+    def _signature_verifies(self, entity_id, trust_anchor, federation_entity, response):
+        # The response must be signed with a key that belongs to an entity that has a verified
+        # trust chain to the trust anchor.
+        _chains, _ec = collect_trust_chains(self.upstream_get('unit'),
+                                            entity_id=entity_id,
+                                            stop_at=trust_anchor)
+        for _trust_chain in verify_trust_chains(federation_entity, _chains, _ec):
+            if _trust_chain.anchor == trust_anchor:
+                _keyjar = import_jwks(KeyJar(), _trust_chain.verified_chain[-1]['jwks'], entity_id)
+                try:
+                    JWT(key_jar=_keyjar).unpack(response)
+                except Exception as err:
+                    logger.error(f"Registration response signature: {err}")
+                else:
+                    return True
+        return False
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
@@ -161,7 +170,7 @@ class Registration(registration.Registration):
         else:
             # verify the signature on the response from the OP
             if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'],
-                                            _federation_entity):
+                                            _federation_entity, resp):
                 raise SignatureFailure("Could not verify signature")
 
             # This is the trust chain from myself to the TA
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index aed99df..e9d0856 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -1,8 +1,11 @@
 import logging
 from typing import Optional
 
+from cryptojwt import JWT
+from cryptojwt import KeyJar
 from idpyoidc.client.exception import ResponseError
 from idpyoidc.client.oidc import registration
+from idpyoidc.key_import import import_jwks
 from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.message.oidc import RegistrationResponse
 
@@ -99,15 +102,22 @@ class Registration(registration.Registration):
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
-    def _signature_verifies(self, entity_id, trust_anchor, federation_entity):
-        _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                          entity_id=entity_id,
-                                          stop_at=trust_anchor)
-        if not _chains:
-            return False
-
-        _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+    def _signature_verifies(self, entity_id, trust_anchor, federation_entity, response):
+        # The response must be signed with a key that belongs to an entity that has a verified
+        # trust chain to the trust anchor.
+        _chains, _ec = collect_trust_chains(self.upstream_get('unit'),
+                                            entity_id=entity_id,
+                                            stop_at=trust_anchor)
+        for _trust_chain in verify_trust_chains(federation_entity, _chains, _ec):
+            if _trust_chain.anchor == trust_anchor:
+                _keyjar = import_jwks(KeyJar(), _trust_chain.verified_chain[-1]['jwks'], entity_id)
+                try:
+                    JWT(key_jar=_keyjar).unpack(response)
+                except Exception as err:
+                    logger.error(f"Registration response signature: {err}")
+                else:
+                    return True
+        return False
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
@@ -139,14 +149,15 @@ class Registration(registration.Registration):
         else:
             # verify the signature on the response from the OP
             if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'],
-                                            _federation_entity):
+                                            _federation_entity, resp):
                 raise SignatureFailure("Could not verify signature")
 
             # This is the trust chain from the RP to the TA
-            _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                              entity_id=self.upstream_get('attribute', 'entity_id'),
-                                              stop_at=payload['trust_anchor_id'])
-            _trust_chains = verify_trust_chains(_federation_entity, _chains, resp)
+            _chains, _ec = collect_trust_chains(self.upstream_get('unit'),
+                                                entity_id=self.upstream_get('attribute',
+                                                                            'entity_id'),
+                                                stop_at=payload['trust_anchor_id'])
+            _trust_chains = verify_trust_chains(_federation_entity, _chains, _ec)
             # should only be one chain
             if len(_trust_chains) != 1:
                 raise SystemError(f"More then one chain ending in {payload['trust_anchor_id']}")
-- 
2.43.0


From 63419f9559cdfe8c69352fa506c977fd83bdd627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 09/90] fix: each statement in a trust chain must be issued by
 its superior's subject with a vouched for key

---
 src/fedservice/entity/function/verifier.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 3a989d9..bcb1600 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -3,8 +3,10 @@ from typing import Callable
 from typing import List
 
 from cryptojwt import KeyBundle
+from cryptojwt import KeyJar
 from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
+from idpyoidc.key_import import import_jwks
 
 from fedservice.entity.function import Function
 from fedservice.entity.utils import get_federation_entity
@@ -64,7 +66,16 @@ class TrustChainVerifier(Function):
             if _jwt:
                 logger.debug(f"JWS header: {_jwt.jwt.headers}", )
                 logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
-                keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
+                if ves:
+                    # Each statement must be issued by the subject of its superior's statement and
+                    # be signed with a key the superior has vouched for.
+                    if _jwt.jwt.payload().get('iss') != ves[-1]['sub']:
+                        logger.error("Not issued by the subject of the preceding statement")
+                        return []
+                    _issuer_keys = import_jwks(KeyJar(), ves[-1]['jwks'], ves[-1]['sub'])
+                    keys = _issuer_keys.get_jwt_verify_keys(_jwt.jwt)
+                else:
+                    keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
                 if keys == []:
                     logger.error(f'No keys matching: {_jwt.jwt.headers}')
                     logger.debug(f"keyjar contains: {_keyjar}")
-- 
2.43.0


From c594140aca12bdff981e48668fc8bf94c5d4c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 10/90] fix: only learn keys from accepted trust chains and
 never for a trust anchor or oneself

---
 src/fedservice/entity/function/verifier.py | 56 +++++++++++++---------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index bcb1600..850f8f3 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -44,6 +44,37 @@ class TrustChainVerifier(Function):
 
         return True
 
+    def learn_keys(self, verified_chain, keyjar):
+        """
+        Add the keys of the subjects in an accepted trust chain to the key jar. Someone else's
+        statement never changes which keys a trust anchor or this entity itself has.
+        """
+        _federation_entity = get_federation_entity(self)
+        if _federation_entity:
+            _protected = [_federation_entity.entity_id, *_federation_entity.trust_anchors]
+        else:
+            _protected = []
+
+        for statement in verified_chain:
+            if 'jwks' not in statement or statement['sub'] in _protected:
+                continue
+            _kb = KeyBundle(keys=statement['jwks']['keys'])
+            try:
+                old = keyjar.get_issuer_keys(statement['sub'])
+            except KeyError:
+                keyjar.add_kb(statement['sub'], _kb)
+            else:
+                new = [k for k in _kb if k not in old]
+                if new:
+                    _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in new]
+                    logger.debug(
+                        "New keys added to the federation key jar for '{}': {}".format(
+                            statement['sub'], _key_spec)
+                    )
+                    # Only add keys to the KeyJar if they are not already there.
+                    _kb.set(new)
+                    keyjar.add_kb(statement['sub'], _kb)
+
     def verify_trust_chain(self, entity_statement_list):
         """
         Verifies the trust chain. Works its way down from the Trust Anchor to the leaf.
@@ -85,32 +116,13 @@ class TrustChainVerifier(Function):
                 logger.debug("Possible verification keys: %s", _key_spec)
                 res = _jwt.verify_compact(keys=keys)
                 logger.debug("Verified entity statement: %s", res)
-                try:
-                    _jwks = res['jwks']
-                except KeyError:
-                    if len(ves) != n:
-                        raise ValueError('Missing signing JWKS')
-                else:
-                    _kb = KeyBundle(keys=_jwks['keys'])
-                    try:
-                        old = _keyjar.get_issuer_keys(res['sub'])
-                    except KeyError:
-                        _keyjar.add_kb(res['sub'], _kb)
-                    else:
-                        new = [k for k in _kb if k not in old]
-                        if new:
-                            _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in new]
-                            logger.debug(
-                                "New keys added to the federation key jar for '{}': {}".format(
-                                    res['sub'], _key_spec)
-                            )
-                            # Only add keys to the KeyJar if they are not already there.
-                            _kb.set(new)
-                            _keyjar.add_kb(res['sub'], _kb)
+                if 'jwks' not in res and len(ves) != n:
+                    raise ValueError('Missing signing JWKS')
 
                 ves.append(res)
 
         if ves and meets_restrictions(ves):
+            self.learn_keys(ves, _keyjar)
             return ves
         else:
             return []
-- 
2.43.0


From d4f69daccb3cb487388d3335e281966edfdd2033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 11/90] fix: an expired entity statement makes the trust chain
 invalid

---
 src/fedservice/entity/function/verifier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 850f8f3..c71c80c 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -13,6 +13,7 @@ from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.constraints import meets_restrictions
 from fedservice.entity_statement.statement import TrustChain
 from fedservice.exception import UnknownTrustAnchor
+from fedservice.utils import statement_is_expired
 
 logger = logging.getLogger(__name__)
 
@@ -116,6 +117,9 @@ class TrustChainVerifier(Function):
                 logger.debug("Possible verification keys: %s", _key_spec)
                 res = _jwt.verify_compact(keys=keys)
                 logger.debug("Verified entity statement: %s", res)
+                if statement_is_expired(res):
+                    logger.error("Expired entity statement in the trust chain")
+                    return []
                 if 'jwks' not in res and len(ves) != n:
                     raise ValueError('Missing signing JWKS')
 
-- 
2.43.0


From d3c1617107b617629d95159ae5b4c648d9e6185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 12/90] fix: do not serve stored trust chains that have expired

---
 src/fedservice/entity/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 1bac7c1..6474bff 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -265,8 +265,15 @@ class FederationEntity(Unit):
                         _info[md_param] = _val
         return _info
 
+    def get_stored_trust_chains(self, entity_id):
+        # Only those that are still valid
+        _trust_chains = self.trust_chain.get(entity_id)
+        if _trust_chains:
+            _trust_chains = [tc for tc in _trust_chains if not tc.is_expired()]
+        return _trust_chains or None
+
     def get_trust_chains(self, entity_id):
-        _trust_chains = self.trust_chain.get(entity_id, None)
+        _trust_chains = self.get_stored_trust_chains(entity_id)
         if _trust_chains is None:
             _trust_chains = get_verified_trust_chains(self, entity_id)
             if _trust_chains:
@@ -283,7 +290,7 @@ class FederationEntity(Unit):
         self.trust_chain[entity_id] = chains
 
     def get_verified_metadata(self, entity_id: str, *args):
-        _trust_chains = self.trust_chain.get(entity_id)
+        _trust_chains = self.get_stored_trust_chains(entity_id)
         if _trust_chains is None:
             _trust_chains = get_verified_trust_chains(self, entity_id)
             if _trust_chains:
-- 
2.43.0


From 074038aa318e3c34f771a85a926b3ba68babfe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:56 +0000
Subject: [PATCH 13/90] fix: handle that a superior's cached configuration gets
 outdated before the cached statement

---
 .../entity/function/trust_chain_collector.py  | 57 +++++++++++--------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 7f58d7b..568de2c 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -183,30 +183,38 @@ class TrustChainCollector(Function):
 
         return _ec['metadata']
 
-    def get_federation_fetch_endpoint(self, intermediate: str) -> str:
-        logger.debug(f'--get_federation_fetch_endpoint({intermediate})')
-        # In cache ??
-        _entity_config = self.config_cache[intermediate]
-        if _entity_config:
-            logger.debug(f'Cached info: {_entity_config}')
-            # will return None if cached information is outdated
-            fed_fetch_endpoint = get_endpoint("fetch", _entity_config)
-        else:
-            fed_fetch_endpoint = None
+    def get_verified_entity_configuration(self, entity_id: str) -> Optional[Union[dict, Message]]:
+        """
+        Get the Entity Configuration of an entity. From the cache if there is one there that is
+        recent enough.
 
-        if not fed_fetch_endpoint:
-            signed_entity_config = self.get_entity_configuration(intermediate)
-            if signed_entity_config is None:
-                return ''
+        :param entity_id: The ID of the entity
+        :return: The verified Entity Configuration or None if there is none
+        """
+        # In cache ?? Will return None if cached information is outdated
+        entity_config = self.config_cache[entity_id]
+        if entity_config:
+            logger.debug(f'Cached info: {entity_config}')
+            return entity_config
 
-            entity_config = verify_self_signed_signature(signed_entity_config)
-            logger.debug(f'Verified self signed statement: {entity_config}')
-            fed_fetch_endpoint = get_endpoint("fetch", entity_config)
-            # update cache
-            entity_config["_jws"] = signed_entity_config
-            self.config_cache[intermediate] = entity_config
+        signed_entity_config = self.get_entity_configuration(entity_id)
+        if not signed_entity_config:
+            return None
 
-        return fed_fetch_endpoint
+        entity_config = verify_self_signed_signature(signed_entity_config)
+        logger.debug(f'Verified self signed statement: {entity_config}')
+        # update cache
+        entity_config["_jws"] = signed_entity_config
+        self.config_cache[entity_id] = entity_config
+        return entity_config
+
+    def get_federation_fetch_endpoint(self, intermediate: str) -> str:
+        logger.debug(f'--get_federation_fetch_endpoint({intermediate})')
+        entity_config = self.get_verified_entity_configuration(intermediate)
+        if entity_config is None:
+            return ''
+
+        return get_endpoint("fetch", entity_config)
 
     def get_entity_statement(self, fetch_endpoint, issuer, subject):
         """
@@ -334,7 +342,10 @@ class TrustChainCollector(Function):
         entity_statement = self._get_entity_statement(entity, authority)
 
         if entity_statement:
-            _entity_configuration = self.config_cache[authority]
+            # May have to be fetched again even though there was a cached entity statement
+            _entity_configuration = self.get_verified_entity_configuration(authority)
+            if _entity_configuration is None:
+                return None
             return entity_statement, self.collect_tree(authority,
                                                        _entity_configuration,
                                                        stop_at=stop_at,
@@ -345,7 +356,7 @@ class TrustChainCollector(Function):
 
     def too_old(self, statement):
         now = time.time()
-        if now >= statement["exp"] + self.allowed_delta:
+        if now >= statement["exp"] - self.allowed_delta:
             return True
         else:
             return False
-- 
2.43.0


From 33be869f8d8789c4b13cd0c19ee2047bf8f709c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 14/90] fix: cached entity configurations received by the
 client also get outdated

---
 src/fedservice/entity/__init__.py                       | 6 +++---
 src/fedservice/entity/client/entity_statement.py        | 5 ++---
 src/fedservice/entity/function/trust_chain_collector.py | 4 ++--
 src/fedservice/entity_statement/cache.py                | 3 ++-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 6474bff..40a0de2 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -321,9 +321,9 @@ class FederationEntity(Unit):
                                       **kwargs)
 
     def trawl(self, superior, subordinate, entity_type):
-        if subordinate in self.function.trust_chain_collector.config_cache:
-            _ec = self.function.trust_chain_collector.config_cache[subordinate]
-        else:
+        # None if not there or outdated
+        _ec = self.function.trust_chain_collector.config_cache[subordinate]
+        if not _ec:
             _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
 
             # add subjects key/-s to keyjar
diff --git a/src/fedservice/entity/client/entity_statement.py b/src/fedservice/entity/client/entity_statement.py
index aecef8a..2bceda9 100644
--- a/src/fedservice/entity/client/entity_statement.py
+++ b/src/fedservice/entity/client/entity_statement.py
@@ -76,9 +76,8 @@ class EntityStatement(FederationService):
         if not fetch_endpoint:
             _federation_entity = get_federation_entity(self)
             _collector = _federation_entity.function.trust_chain_collector
-            if issuer in _collector.config_cache:
-                _ec = _collector.config_cache[issuer]
-            else:
+            _ec = _collector.config_cache[issuer]  # None if not there or outdated
+            if not _ec:
                 logger.debug(f"Entity Configuration for '{issuer}' not cached")
                 _ec = _federation_entity.client.do_request("entity_configuration", entity_id=issuer)
             fetch_endpoint = _ec["metadata"]["federation_entity"][self.endpoint_name]
diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 568de2c..7615117 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -171,7 +171,7 @@ class TrustChainCollector(Function):
         _ec = None
         if entity_id in self.config_cache:
             _ec = self.config_cache[entity_id]
-            if statement_is_expired(_ec):
+            if _ec is not None and statement_is_expired(_ec):
                 _ec = None
 
         if _ec is None:
@@ -179,7 +179,7 @@ class TrustChainCollector(Function):
             _federation_entity = _collection.upstream_get('unit')
             _chains, _ = collect_trust_chains(_federation_entity, entity_id)
             _trust_chains = verify_trust_chains(_federation_entity, _chains)
-            _ec = self.config_cache[entity_id]
+            _ec = self.get_verified_entity_configuration(entity_id)
 
         return _ec['metadata']
 
diff --git a/src/fedservice/entity_statement/cache.py b/src/fedservice/entity_statement/cache.py
index 31f5ee4..5350bc9 100644
--- a/src/fedservice/entity_statement/cache.py
+++ b/src/fedservice/entity_statement/cache.py
@@ -4,6 +4,7 @@ from typing import Optional
 
 from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.impexp import ImpExp
+from idpyoidc.message import Message
 
 logger = logging.getLogger(__name__)
 
@@ -28,7 +29,7 @@ class ESCache(ImpExp):
         except KeyError:
             return None
         else:
-            if isinstance(statement, dict):
+            if isinstance(statement, (dict, Message)):
                 # verify that the statement is recent enough
                 _now = utc_time_sans_frac()
                 if _now < (statement["exp"] - self.allowed_delta):
-- 
2.43.0


From 662e5822ea2af404a8b60e1b08d2cd4de57ffffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 15/90] fix: trawl ends in a federation with loops and does not
 change the keys of a trust anchor

---
 src/fedservice/entity/__init__.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 40a0de2..45c4490 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -320,15 +320,19 @@ class FederationEntity(Unit):
                                       request_args=request_args, behaviour_args=behaviour_args,
                                       **kwargs)
 
-    def trawl(self, superior, subordinate, entity_type):
+    def trawl(self, superior, subordinate, entity_type, seen: Optional[list] = None):
+        # seen are the entities above subordinate. To capture loops.
+        seen = (seen or []) + [subordinate]
         # None if not there or outdated
         _ec = self.function.trust_chain_collector.config_cache[subordinate]
         if not _ec:
             _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
 
-            # add subjects key/-s to keyjar
-            _kj = self.get_federation_entity().keyjar
-            _kj = import_jwks(_kj, _es["jwks"], _es["sub"])
+            # add subjects key/-s to keyjar. What a superior says never changes the keys of a trust
+            # anchor or of this entity itself
+            if _es["sub"] not in [self.entity_id, *self.trust_anchors]:
+                _kj = self.get_federation_entity().keyjar
+                _kj = import_jwks(_kj, _es["jwks"], _es["sub"])
 
             # Fetch Entity Configuration
             _ec = self.client.do_request("entity_configuration", entity_id=subordinate)
@@ -359,7 +363,10 @@ class FederationEntity(Unit):
         # For all intermediates go further down the tree
         if _intermediates:
             for entity_id in _intermediates:
-                _ids = self.trawl(subordinate, entity_id, entity_type)
+                if entity_id in seen:
+                    logger.warning(f"Loop detected at {entity_id}")
+                    continue
+                _ids = self.trawl(subordinate, entity_id, entity_type, seen=seen)
                 if _ids:
                     _issuers.extend(_ids)
 
-- 
2.43.0


From 6821a5a39ee3a72d0c2382176c6f7151b6948a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:18 +0000
Subject: [PATCH 16/90] fix: an expired trust mark in the file store hides
 those that are still valid

---
 src/fedservice/trust_mark_entity/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 6c1ff10..1f2529a 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -5,6 +5,10 @@ from typing import Optional
 from cryptojwt.jwt import utc_time_sans_frac
 
 
+def is_expired(tm_info: dict) -> bool:
+    return 'exp' in tm_info and utc_time_sans_frac() > tm_info["exp"]
+
+
 class FileDB(object):
 
     def __init__(self, **kwargs):
@@ -31,15 +35,16 @@ class FileDB(object):
         return False
 
     def find(self, trust_mark_id: str, sub: str, iat: Optional[int] = 0):
+        if trust_mark_id not in self.config:
+            return False
+
         with open(self.config[trust_mark_id], "r") as fp:
             # Get the last issued
             for line in reversed(list(fp)):
                 _tmi = json.loads(line.rstrip())
 
-                if 'exp' in _tmi:
-                    now = utc_time_sans_frac()
-                    if now > _tmi["exp"]:
-                        return False
+                if is_expired(_tmi):  # There may be an older one that is still valid
+                    continue
 
                 if self._match(sub, iat, _tmi):
                     return True
@@ -79,6 +84,8 @@ class FileDB(object):
                 # Get the last issued
                 for line in reversed(list(fp)):
                     _tmi = json.loads(line.rstrip())
+                    if is_expired(_tmi):
+                        continue
                     if _tmi["sub"] not in res:
                         if sub:
                             if _tmi["sub"] == sub:
-- 
2.43.0


From e30ca05830686de91f8c395de4652c58b9ecd0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:03 +0000
Subject: [PATCH 17/90] fix: in memory store of trust marks handles more than
 one subject and expired marks

---
 src/fedservice/trust_mark_entity/__init__.py | 23 +++++++-------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 1f2529a..62658e7 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -104,25 +104,18 @@ class SimpleDB(object):
         self._db = {}
 
     def add(self, tm_info: dict):
-        if tm_info['id'] in self._db:
-            self._db[tm_info['id']].append({tm_info['sub']: tm_info})
-        else:
-            self._db[tm_info['id']] = {tm_info["sub"]: tm_info}
+        # All trust marks issued, per trust mark id and subject
+        self._db.setdefault(tm_info['id'], {}).setdefault(tm_info['sub'], []).append(tm_info)
 
     def list(self, trust_mark_id, sub: Optional[str] = ""):
-        if sub:
-            if self._db[trust_mark_id].get(sub, None):
-                return [sub]
-        elif trust_mark_id in self._db:
-            return self._db[trust_mark_id]
+        _subs = [sub] if sub else self._db.get(trust_mark_id, {}).keys()
+        return [_sub for _sub in _subs if self.find(trust_mark_id, _sub)]
 
     def find(self, trust_mark_id, sub: str, iat: Optional[int] = 0) -> bool:
-        _tmi = self._db[trust_mark_id].get(sub, None)
-        if _tmi:
-            if iat:
-                if iat == _tmi["iat"]:
-                    return True
-            else:
+        for _tmi in self._db.get(trust_mark_id, {}).get(sub, []):
+            if is_expired(_tmi):
+                continue
+            if not iat or iat == _tmi["iat"]:
                 return True
 
         return False
-- 
2.43.0


From f9bc9a1c3908ed128c9b42ace9a71a2564de4dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 18/90] fix: trust mark listing for one specific subject

---
 src/fedservice/trust_mark_entity/server/trust_mark_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_list.py b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
index 3a543ad..027522d 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_list.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
@@ -39,7 +39,7 @@ class TrustMarkList(Endpoint):
 
         if 'sub' in request and 'trust_mark_id' in request:
             if _trust_mark_entity.find(request['trust_mark_id'], request['sub']):
-                return {"foo": request["sub"]}
+                return {"response_msg": json.dumps([request["sub"]]), "response_code": 200}
         elif 'trust_mark_id' in request:
             _lst = _trust_mark_entity.list(request["trust_mark_id"])
             if _lst:
-- 
2.43.0


From c43722ad1aff3aea432e0be03f479f5094fa26df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 19/90] fix: a trust mark must be signed by a key vouched for
 below the anchor and a delegation must cover it

---
 src/fedservice/entity/__init__.py             |  2 +
 .../entity/function/trust_mark_verifier.py    | 43 +++++++++++--------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 45c4490..1a453ec 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -383,6 +383,8 @@ class FederationEntity(Unit):
         # Verifies the signature of the Trust Mark
         verified_trust_mark = self.function.trust_mark_verifier(
             trust_mark=trust_mark, trust_anchor=_tmi_trust_chain.anchor)
+        if not verified_trust_mark:
+            return None
 
         if check_with_issuer:
             # This to check that the Trust Mark is still valid according to the Trust Mark Issuer
diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index ea64782..e5d0503 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -7,7 +7,6 @@ from cryptojwt.jws.jws import factory
 from idpyoidc.key_import import import_jwks
 
 from fedservice import message
-from fedservice.entity import apply_policies
 from fedservice.entity.function import Function
 from fedservice.entity.function import get_payload
 from fedservice.entity.function import get_verified_trust_chains
@@ -39,7 +38,10 @@ class TrustMarkVerifier(Function):
         payload = get_payload(trust_mark)
         _trust_mark = message.TrustMark(**payload)
         # Verify that everything that should be there, are there
-        _trust_mark.verify()
+        if entity_id:
+            _trust_mark.verify(entity_id=entity_id)
+        else:
+            _trust_mark.verify()
 
         # Has it expired ?
         if statement_is_expired(_trust_mark):
@@ -50,6 +52,7 @@ class TrustMarkVerifier(Function):
             _delegation = self.verify_delegation(_trust_mark, trust_anchor)
             if not _delegation:
                 logger.warning("Could not verify the delegation")
+                return None
 
         # Get trust chain
         # _federation_entity = get_federation_entity(self)
@@ -60,23 +63,18 @@ class TrustMarkVerifier(Function):
             logger.warning(f"Could not find any verifiable trust chains for {_trust_mark['iss']}")
             return None
 
-        if trust_anchor not in [_tc.anchor for _tc in _trust_chains]:
-            logger.warning(f'No verified trust chain to the trust anchor: {trust_anchor}')
-            return None
-
-        # Now try to verify the signature on the trust_mark
-        # should have the necessary keys
-        _federation_entity = get_federation_entity(self)
+        # Only the keys vouched for by a trust chain to the trust anchor counts
         _jwt = factory(trust_mark)
-        keyjar = _federation_entity.get_attribute('keyjar')
+        keys = []
+        for _trust_chain in _trust_chains:
+            if _trust_chain.anchor == trust_anchor:
+                _keyjar = import_jwks(KeyJar(), _trust_chain.verified_chain[-1]["jwks"],
+                                      _trust_mark['iss'])
+                keys.extend(_keyjar.get_jwt_verify_keys(_jwt.jwt))
 
-        keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
         if not keys:
-            _trust_chains = apply_policies(_federation_entity, _trust_chains)
-            keyjar = import_jwks(keyjar,
-                                 _trust_chains[0].verified_chain[-1]["jwks"],
-                                 _trust_chains[0].iss_path[0])
-            keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
+            logger.warning(f'No keys from a verified trust chain to the trust anchor: {trust_anchor}')
+            return None
 
         try:
             _mark = _jwt.verify_compact(trust_mark, keys=keys)
@@ -101,4 +99,15 @@ class TrustMarkVerifier(Function):
         _key_jar = KeyJar()
         _key_jar = import_jwks(_key_jar, tm_owner_info['jwks'], tm_owner_info['sub'])
         keys = _key_jar.get_jwt_verify_keys(_delegation.jwt)
-        return _delegation.verify_compact(keys=keys)
+        try:
+            _info = _delegation.verify_compact(keys=keys)
+        except Exception as err:
+            logger.warning(f"Could not verify the signature of the delegation: {err}")
+            return None
+
+        # It must be this trust mark that was delegated to this issuer, and it must still be so.
+        if _info.get('sub') != trust_mark['iss'] or _info.get('id') != trust_mark['id']:
+            return None
+        if statement_is_expired(_info):
+            return None
+        return _info
-- 
2.43.0


From fb43f33ccbc2cbefe9d3743294b847c54e5227b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 20/90] fix: delegation information must come from the trust
 anchor's own signed configuration

---
 .../entity/function/trust_mark_verifier.py           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index e5d0503..f3e9088 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -10,6 +10,7 @@ from fedservice import message
 from fedservice.entity.function import Function
 from fedservice.entity.function import get_payload
 from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function import verify_trust_chain
 from fedservice.entity.utils import get_federation_entity
 from fedservice.utils import statement_is_expired
 
@@ -87,11 +88,16 @@ class TrustMarkVerifier(Function):
         _federation_entity = get_federation_entity(self)
         _collector = _federation_entity.function.trust_chain_collector
         # Deal with the delegation
-        ta_fe_metadata = _collector.get_metadata(trust_anchor_id)['federation_entity']
+        # What the Trust Anchor says must be signed by the Trust Anchor
+        _, _ta_ec = _collector(trust_anchor_id, stop_at=trust_anchor_id)
+        _ta_chain = verify_trust_chain(_federation_entity, [_ta_ec])
+        if not _ta_chain:
+            return None
+        ta_fe_metadata = _ta_chain.verified_chain[0]['metadata']['federation_entity']
 
-        if trust_mark['id'] not in ta_fe_metadata['trust_mark_issuers']:
+        if trust_mark['id'] not in ta_fe_metadata.get('trust_mark_issuers', {}):
             return None
-        if trust_mark['id'] not in ta_fe_metadata['trust_mark_owners']:
+        if trust_mark['id'] not in ta_fe_metadata.get('trust_mark_owners', {}):
             return None
 
         _delegation = factory(trust_mark['delegation'])
-- 
2.43.0


From 11cf977bb3acf06f920a3fdd4f2ce01fe9156ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 21/90] fix: policy operators: value can not lift the other
 operators, single valued claims, one_of is for single values

---
 .../entity/function/policy_operator.py        | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/fedservice/entity/function/policy_operator.py b/src/fedservice/entity/function/policy_operator.py
index 6580b9d..c3f50e7 100644
--- a/src/fedservice/entity/function/policy_operator.py
+++ b/src/fedservice/entity/function/policy_operator.py
@@ -3,17 +3,15 @@ from fedservice.entity.function import PolicyError
 POLICY_APPLICATION_ORDER = ['value', 'add', 'default', 'one_of', 'subset_of', 'superset_of', 'essential']
 
 
-def union(val1, val2):
-    if isinstance(val1, list):
-        base = set(val1)
+def as_set(val):
+    if isinstance(val, list):
+        return set(val)
     else:
-        base = {val1}
+        return {val}
 
-    if isinstance(val2, list):
-        ext = set(val2)
-    else:
-        ext = {val2}
-    return base.union(ext)
+
+def union(val1, val2):
+    return as_set(val1).union(as_set(val2))
 
 
 class PolicyOperator(object):
@@ -32,8 +30,18 @@ class Value(PolicyOperator):
     default_next = "essential"
 
     def __call__(self, claim, metadata, metadata_policy):
-        # value overrides everything
-        metadata[claim] = metadata_policy[claim][self.name]
+        # value overrides everything in the metadata but not the other operators
+        _policy = metadata_policy[claim]
+        _value = _policy[self.name]
+        if "one_of" in _policy and (isinstance(_value, list) or _value not in _policy["one_of"]):
+            raise PolicyError(f"{_value} not among {_policy['one_of']}")
+        if "subset_of" in _policy and not as_set(_value).issubset(_policy["subset_of"]):
+            raise PolicyError(f"{_value} not subset of {_policy['subset_of']}")
+        if "superset_of" in _policy and not as_set(_value).issuperset(_policy["superset_of"]):
+            raise PolicyError(f"{_value} not superset of {_policy['superset_of']}")
+        if "add" in _policy and not as_set(_policy["add"]).issubset(as_set(_value)):
+            raise PolicyError(f"{_policy['add']} not in {_value}")
+        metadata[claim] = _value
         return self.next
 
 
@@ -44,14 +52,13 @@ class OneOf(PolicyOperator):
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
             if isinstance(metadata[claim], list):  # Should not be
-                return None
+                raise PolicyError(f"{metadata[claim]} more than one value")
             else:
                 if metadata[claim] in metadata_policy[claim][self.name]:
                     pass
                 else:
                     raise PolicyError(
                         f"{metadata[claim]} not among {metadata_policy[claim][self.name]}")
-                return self.next
 
 
 class Add(PolicyOperator):
@@ -82,8 +89,8 @@ class SubsetOf(PolicyOperator):
             if isinstance(metadata[claim], list):
                 _val = set(metadata_policy[claim][self.name]).intersection(set(metadata[claim]))
             else:
-                if metadata[claim] in metadata_policy[claim]:
-                    _val = metadata[claim]
+                if metadata[claim] in metadata_policy[claim][self.name]:
+                    return
                 else:
                     raise PolicyError(f"{metadata[claim]} not in allowed subset: {metadata_policy[claim]}")
 
@@ -99,7 +106,7 @@ class SupersetOf(PolicyOperator):
 
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
-            if set(metadata_policy[claim][self.name]).difference(set(metadata[claim])):
+            if set(metadata_policy[claim][self.name]).difference(as_set(metadata[claim])):
                 raise PolicyError(f"{metadata[claim]} not superset of {metadata_policy[claim][self.name]}")
 
 
-- 
2.43.0


From 866eced598cee8ecdf1a8bf21c6e9f6778a1fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:23 +0000
Subject: [PATCH 22/90] fix: metadata stated by a superior overrides the
 entity's own

---
 src/fedservice/entity/function/policy.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 34b7d21..edd9d6c 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -340,11 +340,9 @@ class TrustChainPolicy(Function):
         :return: A metadata statement that adheres to a metadata policy
         """
 
-        _metadata = policy.get("metadata", None)
-        if _metadata:
-            _metadata = _metadata.copy()
-            _metadata.update(metadata)
-            metadata = _metadata
+        # What a superior states overrides what the entity itself states.
+        # Also makes a copy, the entity's own statement is left as it was.
+        metadata = {**metadata, **(policy.get("metadata") or {})}
 
         _metadata_policy = policy.get('metadata_policy', None)
         if _metadata_policy:
-- 
2.43.0


From 327cc9e12f1a582702463defd78e5f77014e5138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 23/90] fix: operator conflicts are detected also when there
 are other operators

---
 src/fedservice/entity/function/policy.py | 38 +++++++++---------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index edd9d6c..20a74d3 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -3,6 +3,7 @@ from typing import Optional
 
 from fedservice.entity.function import Function
 from fedservice.entity.function import PolicyError
+from fedservice.entity.function.policy_operator import as_set
 from fedservice.entity.function.policy_operator import construct_evaluation_sequence
 from fedservice.entity_statement.statement import TrustChain
 
@@ -154,36 +155,25 @@ def combine_claim_policy(superior, child):
         for policy in comb_policy:
             rule[policy] = DO_POLICY[policy](superior, child, policy)
 
-        if comb_policy == {'superset_of', 'subset_of'}:
+        # What must hold between the operators, whichever other operators there are.
+        if {'superset_of', 'subset_of'} <= comb_policy:
             # make sure the subset_of is a superset of superset_of.
             if set(rule['superset_of']).difference(set(rule['subset_of'])):
                 raise PolicyError('superset_of not a super set of subset_of')
-        elif comb_policy == {'superset_of', 'subset_of', 'default'}:
-            # make sure the subset_of is a superset of superset_of.
-            if set(rule['superset_of']).difference(set(rule['subset_of'])):
-                raise PolicyError('superset_of not a super set of subset_of')
-            if set(rule['default']).difference(set(rule['subset_of'])):
+        if {'subset_of', 'default'} <= comb_policy:
+            if as_set(rule['default']).difference(set(rule['subset_of'])):
                 raise PolicyError('default not a sub set of subset_of')
-            if set(rule['superset_of']).difference(set(rule['default'])):
+        if {'superset_of', 'default'} <= comb_policy:
+            if set(rule['superset_of']).difference(as_set(rule['default'])):
                 raise PolicyError('default not a super set of subset_of')
-        elif comb_policy == {'subset_of', 'default'}:
-            if set(rule['default']).difference(set(rule['subset_of'])):
-                raise PolicyError('default not a sub set of subset_of')
-        elif comb_policy == {'superset_of', 'default'}:
-            if set(rule['superset_of']).difference(set(rule['default'])):
-                raise PolicyError('default not a super set of subset_of')
-        elif comb_policy == {'one_of', 'default'}:
-            if isinstance(rule['default'], list):
-                if set(rule['default']).difference(set(rule['one_of'])):
-                    raise PolicyError('default not a super set of one_of')
-            else:
-                if {rule['default']}.difference(set(rule['one_of'])):
-                    raise PolicyError('default not a super set of one_of')
-        elif comb_policy == {'subset_of', 'add'}:
-            if not set(rule['add']).issubset(set(rule['subset_of'])):
+        if {'one_of', 'default'} <= comb_policy:
+            if as_set(rule['default']).difference(set(rule['one_of'])):
+                raise PolicyError('default not a super set of one_of')
+        if {'subset_of', 'add'} <= comb_policy:
+            if not as_set(rule['add']).issubset(set(rule['subset_of'])):
                 raise PolicyError('"add" not a subset of "subset"')
-        elif comb_policy == {'superset_of', 'add'}:
-            if not set(rule['add']).issuperset(set(rule['superset_of'])):
+        if {'superset_of', 'add'} == comb_policy:
+            if not as_set(rule['add']).issuperset(set(rule['superset_of'])):
                 raise PolicyError('"add" not a superset of "superset"')
     return rule
 
-- 
2.43.0


From 96a33928cd2991d5e1bd256bc3bcc505e08503f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:14 +0000
Subject: [PATCH 24/90] fix: also the trust anchor's statement is checked for
 claims in both metadata and metadata_policy

---
 src/fedservice/entity/function/policy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 20a74d3..6322896 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -302,6 +302,9 @@ class TrustChainPolicy(Function):
             except KeyError:
                 pass
 
+        if set(_rule['metadata_policy']).intersection(set(_rule['metadata'])):  # Not allowed
+            raise PolicyError('Claim appearing both in metadata and metadata_policy not allowed')
+
         for es in chain[1:]:
             _sub_policy = {'metadata_policy': {}, 'metadata': {}}
             for _item in ['metadata_policy', 'metadata']:
-- 
2.43.0


From 0e1019a84f5947b963f58c3eb7687b80afe270b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 25/90] fix: fetch leaves what is stored about a subordinate as
 is and only issues statements as itself

---
 src/fedservice/entity/server/fetch.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index ab9f8f0..c239ab0 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -26,9 +26,11 @@ class Fetch(Endpoint):
 
     def process_request(self, request=None, **kwargs):
         _context = self.upstream_get("context")
-        _issuer = request.get("iss")
-        if not _issuer:
-            _issuer = self.upstream_get('attribute','entity_id')
+        _issuer = self.upstream_get('attribute', 'entity_id')
+        if request.get("iss", _issuer) != _issuer:
+            # Can only issue statements as myself
+            logger.debug(f"Asked to be someone else: {request['iss']}")
+            raise UnknownEntity(request["iss"])
 
         _sub = request.get("sub")
         _keyjar = self.upstream_get('attribute', 'keyjar')
@@ -50,6 +52,8 @@ class Fetch(Endpoint):
                 logger.debug(f"Known subordinates: {list(_server.subordinate.keys())}")
                 raise UnknownEntity(_sub)
 
+            # Not to change what is stored about the subordinate
+            _response = dict(_response)
             if not 'authority_hints' in _response:
                 # If nothing specified add myself
                 _response["authority_hints"] = [_issuer]
@@ -76,6 +80,7 @@ class Fetch(Endpoint):
 
             if _policy:
                 _response.update(_policy)
+                _response.pop('entity_types', None)
 
             _es = create_entity_statement(iss=_issuer,
                                           sub=_sub,
-- 
2.43.0


From db315de445c06585902c38df5eebb95276aed706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:23 +0000
Subject: [PATCH 26/90] fix: listing of subordinates that match all of the
 filters

---
 src/fedservice/entity/server/list.py | 56 +++++++++++++++-------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 921f697..f3e993f 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -7,9 +7,21 @@ from idpyoidc.key_import import import_jwks
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
 
+from fedservice.entity.function import get_payload
+
 logger = logging.getLogger(__name__)
 
 
+def is_true(val) -> bool:
+    # As a query parameter a boolean is a string
+    return val is True or str(val).lower() == "true"
+
+
+def registered_entity_types(item: dict) -> list:
+    _types = item.get("entity_types") or item.get("entity_type") or []
+    return [_types] if isinstance(_types, str) else list(_types)
+
+
 class List(Endpoint):
     request_cls = oidc.Message
     # response_cls = EntityIDList
@@ -29,24 +41,16 @@ class List(Endpoint):
                **kwargs):
         match = []
         for entity_id, conf in subordinates.items():
-            matched = False
-            if entity_type:
-                if entity_type in conf['metadata']:
-                    matched = True
-            if trust_marked:
-                if 'trust_marks' in conf:
-                    matched = True
-                else:
-                    matched = False
+            trust_marks = conf.get('trust_marks') or []
+            if entity_type and entity_type not in conf['metadata']:
+                continue
+            if trust_marked and not trust_marks:
+                continue
             if trust_mark_id:
-                trust_marks = conf.get('trust_marks')
-                matched = False
-                for trust_mark in trust_marks:
-                    if trust_mark['id'] == trust_mark_id:
-                        matched = True
-
-            if matched:
-                match.append(entity_id)
+                # The trust marks are signed JWTs
+                if trust_mark_id not in [get_payload(tm).get('id') for tm in trust_marks]:
+                    continue
+            match.append(entity_id)
         return match
 
     def process_request(self, request=None, **kwargs):
@@ -58,18 +62,20 @@ class List(Endpoint):
             subordinate_conf = None
             # I know about entity_types and intermediate or not from the registration
             for entity_id, item in _db.items():
-                if "intermediate" in request and request["intermediate"]:
-                    if "intermediate" in item and item["intermediate"]:
-                        matched_entity_ids.add(entity_id)
-                        continue
+                if is_true(request.get("intermediate")) and not item.get("intermediate"):
+                    continue
                 if "entity_type" in request:
-                    if request["entity_type"] in item["entity_type"]:
-                        matched_entity_ids.add(entity_id)
+                    if request["entity_type"] not in registered_entity_types(item):
+                        continue
+                matched_entity_ids.add(entity_id)
 
             # I don't expect to know about trust marks from the registration
-            if "trust_marked" in request or "trust_mark_id" in request:
+            if is_true(request.get("trust_marked")) or "trust_mark_id" in request:
                 subordinate_conf = self.collect_subordinates()
-                matched_entity_ids.update(self.filter(subordinates=subordinate_conf, **request))
+                matched_entity_ids.intersection_update(
+                    self.filter(subordinates=subordinate_conf,
+                                trust_mark_id=request.get("trust_mark_id", ""),
+                                trust_marked=is_true(request.get("trust_marked"))))
 
             if self.extended and subordinate_conf:
                 return {"response_msg": json.dumps({id: subordinate_conf[id] for id in
-- 
2.43.0


From 95707db1dac3efa39052c480a6708ba54db33380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:18 +0000
Subject: [PATCH 27/90] fix: follow the priority between trust anchors when
 picking a stored trust chain

---
 src/fedservice/appclient/stand_alone_client_entity.py | 2 +-
 src/fedservice/entity/__init__.py                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 0b9ae28..0ed0da5 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -143,7 +143,7 @@ class StandAloneClientEntity(ClientEntity):
         elif federation_entity.context.tr_priority:
             # Go by priority
             for ta_id in federation_entity.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _tas:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 1a453ec..0eb9684 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -236,7 +236,7 @@ class FederationEntity(Unit):
         elif self.context.tr_priority:
             # Go by priority
             for ta_id in self.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _tas:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
-- 
2.43.0


From f24b1ab97bec530ba802738817c319df67524577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:18 +0000
Subject: [PATCH 28/90] fix: exporting a trust chain must not change it

---
 src/fedservice/entity_statement/statement.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fedservice/entity_statement/statement.py b/src/fedservice/entity_statement/statement.py
index bf40c6c..267af1d 100644
--- a/src/fedservice/entity_statement/statement.py
+++ b/src/fedservice/entity_statement/statement.py
@@ -87,9 +87,7 @@ class TrustChain(ImpExp):
         trust_chain claim in an authorization or explicit registration request.
         :return:
         """
-        _chain = self.verified_chain
-        _chain.reverse()
-        return _chain
+        return list(reversed(self.verified_chain))
 
 
 def chains2dict(trust_chains: TrustChain) -> dict:
-- 
2.43.0


From bbb4be978432ed2c8a4701c73f2a2923108b9753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 29/90] fix: a provided trust chain must be about the client
 that is to be registered

---
 src/fedservice/appserver/oauth2/authorization.py        | 4 ++++
 src/fedservice/appserver/oauth2/pushed_authorization.py | 4 ++++
 src/fedservice/appserver/oidc/authorization.py          | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 03e3ab8..72f1506 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -54,6 +54,10 @@ class Authorization(authorization.Authorization):
             # So I get the TA's entity statement first
             provided_trust_chain.reverse()
             trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            # The trust chain must be about the one that wants to be registered
+            trust_chains = [tc for tc in trust_chains if
+                            tc.verified_chain[-1]['iss'] == entity_id and
+                            tc.verified_chain[-1]['sub'] == entity_id]
         else:
             chains, signed_entity_configuration = collect_trust_chains(self, entity_id)
             trust_chains = verify_trust_chains(self, chains, signed_entity_configuration)
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index c35b1b5..a35effd 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -47,6 +47,10 @@ class PushedAuthorization(Authorization):
             # So I get the TA's entity statement first
             provided_trust_chain.reverse()
             trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            # The trust chain must be about the one that wants to be registered
+            trust_chains = [tc for tc in trust_chains if
+                            tc.verified_chain[-1]['iss'] == entity_id and
+                            tc.verified_chain[-1]['sub'] == entity_id]
             trust_chains = apply_policies(self, trust_chains)
         else:
             trust_chains = get_verified_trust_chains(self, entity_id)
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index e4e1ae0..ee838dc 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -54,6 +54,10 @@ class Authorization(authorization.Authorization):
             # So I get the TA's entity statement first
             provided_trust_chain.reverse()
             trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            # The trust chain must be about the one that wants to be registered
+            trust_chains = [tc for tc in trust_chains if
+                            tc.verified_chain[-1]['iss'] == client_entity_id and
+                            tc.verified_chain[-1]['sub'] == client_entity_id]
             trust_chains = apply_policies(self, trust_chains)
         else:
             trust_chains = get_verified_trust_chains(self, client_entity_id)
-- 
2.43.0


From ed211f9f70e1a140f1c834c153b3ba0328d8fd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:42 +0000
Subject: [PATCH 30/90] fix: explicit registration (OIDC) must use the
 request's own trust chain and the policy adjusted metadata

---
 src/fedservice/appserver/oidc/registration.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index a87f860..1e4cff4 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -5,7 +5,9 @@ from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.server.oidc import registration
 
 from fedservice import save_trust_chains
-from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function import apply_policies
+from fedservice.entity.function import collect_trust_chains
+from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
 
@@ -44,8 +46,13 @@ class Registration(registration.Registration):
 
         _federation_entity = get_federation_entity(self)
 
-        # Collect trust chains for client
-        _trust_chains = get_verified_trust_chains(self, entity_id=payload['sub'])
+        # Collect trust chains for client, the request is the client's entity configuration
+        if payload['iss'] != payload['sub']:
+            raise NoTrustedChains(f"{payload['iss']} can not register {payload['sub']}")
+        _chains, _ = collect_trust_chains(self, entity_id=payload['sub'],
+                                          signed_entity_configuration=request)
+        _trust_chains = verify_trust_chains(self, _chains, request)
+        _trust_chains = apply_policies(self, _trust_chains)
         if not _trust_chains:
             raise NoTrustedChains(f"No trust chains for {payload['sub']}")
 
@@ -53,7 +60,7 @@ class Registration(registration.Registration):
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
 
-        req = RegistrationRequest(**payload["metadata"][opponent_entity_type])
+        req = RegistrationRequest(**trust_chain.metadata[opponent_entity_type])
         req["client_id"] = payload['sub']
         # Perform non-federation registration
         response_info = self.non_fed_process_request(req, **kwargs)
-- 
2.43.0


From 55c82bbd9a7ac81522abc7ad52ef3c0d58439069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:19 +0000
Subject: [PATCH 31/90] fix: explicit registration (OAuth2) is for the entity
 that issued the request

---
 src/fedservice/appserver/oauth2/registration.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 31f1abc..98415dc 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -26,6 +26,7 @@ from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
+from fedservice.exception import NoTrustedChains
 from fedservice.message import OauthClientInformationResponse
 
 logger = logging.getLogger(__name__)
@@ -64,12 +65,17 @@ class Registration(Endpoint):
                                                                            'trust_mark_issuer'}).pop()
         _federation_entity = get_federation_entity(self)
 
+        if payload['iss'] != payload['sub']:
+            raise NoTrustedChains(f"{payload['iss']} can not register {payload['sub']}")
+
         # Collect trust chains
         _chains, _ = collect_trust_chains(self.upstream_get('unit'),
                                           entity_id=payload['sub'],
                                           signed_entity_configuration=request)
         _trust_chains = verify_trust_chains(_federation_entity, _chains, request)
         _trust_chains = apply_policies(_federation_entity, _trust_chains)
+        if not _trust_chains:
+            raise NoTrustedChains(f"No trust chains for {payload['sub']}")
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
         # Perform non-federation registration
-- 
2.43.0


From a759213520594288c9535f7ceef677c2acd82d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 32/90] fix: a registration response must be about the client
 that asked for registration

---
 src/fedservice/appclient/oauth2/registration.py | 3 +++
 src/fedservice/appclient/oidc/registration.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index bbad1bc..4fd6966 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -151,6 +151,9 @@ class Registration(registration.Registration):
         _federation_entity = get_federation_entity(self)
 
         payload = verify_self_signed_signature(resp)
+        if payload['sub'] != self.upstream_get('attribute', 'entity_id'):
+            raise ValueError("Registration response about someone else")
+
         # Do I trust the TA the OP chose ?
         logger.debug(f"trust_anchor_id: {payload['trust_anchor_id']}")
         if (payload[
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index e9d0856..863f5f8 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -131,6 +131,9 @@ class Registration(registration.Registration):
         _federation_entity = get_federation_entity(self)
 
         payload = verify_self_signed_signature(resp)
+        if payload['sub'] != self.upstream_get('attribute', 'entity_id'):
+            raise ValueError("Registration response about someone else")
+
         # Do I trust the TA the OP chose ?
         logger.debug(f"trust_anchor_id: {payload['trust_anchor_id']}")
         if payload[
-- 
2.43.0


From c6d2e1855dd8a61d152b5a82625af0d29ee8b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 33/90] fix: critical extensions that are not understood makes
 a trust chain invalid

---
 src/fedservice/entity/function/verifier.py | 24 ++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index c71c80c..4587fef 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -13,11 +13,32 @@ from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.constraints import meets_restrictions
 from fedservice.entity_statement.statement import TrustChain
 from fedservice.exception import UnknownTrustAnchor
+from fedservice.message import EntityStatement
+from fedservice.message import Policy
 from fedservice.utils import statement_is_expired
 
 logger = logging.getLogger(__name__)
 
 
+def has_unknown_critical(statement: dict) -> bool:
+    """
+    Whether there is something in the entity statement, a claim or a policy operator, that I have
+    to understand but do not.
+    """
+    _crit = statement.get('crit')
+    if _crit is not None:
+        if not _crit or set(_crit).intersection(statement).difference(EntityStatement.c_param):
+            return True
+
+    _crit = set(statement.get('policy_language_crit') or []).difference(Policy.c_param)
+    for _policies in (statement.get('metadata_policy') or {}).values():
+        for _policy in _policies.values():
+            if _crit.intersection(_policy):
+                return True
+
+    return False
+
+
 class TrustChainVerifier(Function):
 
     def __init__(self, upstream_get: Callable):
@@ -120,6 +141,9 @@ class TrustChainVerifier(Function):
                 if statement_is_expired(res):
                     logger.error("Expired entity statement in the trust chain")
                     return []
+                if has_unknown_critical(res):
+                    logger.error("Critical extension that I do not understand")
+                    return []
                 if 'jwks' not in res and len(ves) != n:
                     raise ValueError('Missing signing JWKS')
 
-- 
2.43.0


From 018c495f33450e83d866530e44dfb56fcfccb9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 34/90] fix: metadata policies with value or default can be
 verified for critical operators

---
 src/fedservice/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index fd84528..f4c8fa1 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -368,7 +368,8 @@ class MetadataPolicy(Message):
     def verify(self, **kwargs):
         for typ, _policy in self.items():
             for attr, item in _policy.items():
-                _p = Policy(**item)
+                # value and default can be of any type, which Message can not represent
+                _p = Policy(**{k: v for k, v in item.items() if k not in ('value', 'default')})
                 _p.verify(**kwargs)
 
 
-- 
2.43.0


From 99a58ac0c2cb138f7bbc36e81edebbb60b25b5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:50 +0000
Subject: [PATCH 35/90] fix: arguments given for one entity leak to others
 through the shared default specifications

---
 src/fedservice/build_entity.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/build_entity.py b/src/fedservice/build_entity.py
index d7b9922..53aea02 100644
--- a/src/fedservice/build_entity.py
+++ b/src/fedservice/build_entity.py
@@ -12,6 +12,21 @@ KEYDEFS = [
 ]
 
 
+def copy_spec(items: dict) -> dict:
+    """
+    A copy of a specification of services, endpoints or functions, such that what is added to it
+    for one entity doesn't also apply to every other entity built from the same specification.
+    """
+    res = {}
+    for name, spec in items.items():
+        if isinstance(spec, dict):
+            spec = spec.copy()
+            if isinstance(spec.get("kwargs"), dict):
+                spec["kwargs"] = spec["kwargs"].copy()
+        res[name] = spec
+    return res
+
+
 class FederationEntityBuilder():
 
     def __init__(self,
@@ -36,9 +51,9 @@ class FederationEntityBuilder():
 
         kwargs = {}
         if services:
-            kwargs['services'] = services
+            kwargs['services'] = copy_spec(services)
         else:
-            kwargs['services'] = FEDERATION_ENTITY_SERVICES
+            kwargs['services'] = copy_spec(FEDERATION_ENTITY_SERVICES)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
@@ -66,9 +81,9 @@ class FederationEntityBuilder():
         # endpoints are accessible to services. Accepts requests and returns responses.
         kwargs = {}
         if endpoints:
-            kwargs['endpoint'] = endpoints
+            kwargs['endpoint'] = copy_spec(endpoints)
         else:
-            kwargs['endpoint'] = federation_endpoints("entity_configuration", "fetch", "list")
+            kwargs['endpoint'] = copy_spec(federation_endpoints("entity_configuration", "fetch", "list"))
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
@@ -97,9 +112,9 @@ class FederationEntityBuilder():
         # available services.
         kwargs = {}
         if functions:
-            kwargs['functions'] = functions
+            kwargs['functions'] = copy_spec(functions)
         else:
-            kwargs['functions'] = DEFAULT_FEDERATION_ENTITY_FUNCTIONS
+            kwargs['functions'] = copy_spec(DEFAULT_FEDERATION_ENTITY_FUNCTIONS)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
-- 
2.43.0


From 497ec7d31862def2d1dce2de32316e29862db126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 36/90] fix: the entity configuration of a tenant at a host
 that is an entity itself is never found

---
 src/fedservice/entity/function/trust_chain_collector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 7615117..dcf562d 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -144,6 +144,9 @@ class TrustChainCollector(Function):
             #     self_signed_config = self.do_ssc_seq(_url, entity_id)
             # else:
             self_signed_config = self.get_document(_res['url'])
+            if unverified_entity_statement(self_signed_config).get("sub") != entity_id:
+                # Some other entity at the same host
+                raise MissingPage(f"Not the entity configuration of {entity_id}: '{_res['url']}'")
         except MissingPage:  # if tenant involved
             _tres = _serv.get_request_parameters(request_args={"entity_id": entity_id}, tenant=True)
             logger.debug(f"Get configuration from (tenant): '{entity_id}'")
-- 
2.43.0


From 45b565e9701e5910d996f9b6ad047f8fa22bd3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:34 +0000
Subject: [PATCH 37/90] fix: what a superior demands is lost when a subordinate
 says essential about a value that is set

---
 src/fedservice/entity/function/policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 6322896..935ca1a 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -127,7 +127,7 @@ def combine_claim_policy(superior, child):
         if child_set:
             if "essential" in child_set:
                 if len(child_set) == 1:
-                    return {"value": superior["value"], "essential": child["essential"]}
+                    return {**superior, "essential": child["essential"]}
                 else:
                     raise PolicyError(
                         f"value can only be combined with essential, not {child_set}")
-- 
2.43.0


From 44119c0e2194fe599d679260b471179949928ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 38/90] fix: the status of a trust mark issued at a certain
 time is taken from any other with the same subject

---
 src/fedservice/trust_mark_entity/server/trust_mark_status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_status.py b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
index d5a86d7..29a1be5 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_status.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
@@ -38,7 +38,7 @@ class TrustMarkStatus(Endpoint):
 
         if 'trust_mark' in request:
             _mark = _trust_mark_issuer.unpack_trust_mark(request['trust_mark'])
-            if _trust_mark_issuer.find(_mark['id'], _mark['sub']):
+            if _trust_mark_issuer.find(_mark['id'], _mark['sub'], _mark['iat']):
                 return {'response_args': {'active': True}}
         else:
             if 'sub' in request:
@@ -49,7 +49,7 @@ class TrustMarkStatus(Endpoint):
                     _id = request['id']
 
                 if _id:
-                    if _trust_mark_issuer.find(_id, request['sub']):
+                    if _trust_mark_issuer.find(_id, request['sub'], int(request.get('iat', 0))):
                         return {'response_args': {'active': True}}
 
         return self.error_cls(error="not_found", error_description="No active trust mark matching the query")
-- 
2.43.0


From 60df82f8a102d6d507eddf5cdeab7b7a033244cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:38 +0000
Subject: [PATCH 39/90] fix: what is registered about a subordinate is lost
 when there are policies for its entity types

---
 src/fedservice/entity/server/fetch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index c239ab0..0f3cf63 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -75,8 +75,8 @@ class Fetch(Endpoint):
                                 except KeyError:
                                     _policy[_typ] = {entity_type: _et_policy[_typ]}
 
-                    if _policy == {'metadata': {}, 'metadata_policy': {}}:  # Nothing has changed
-                        _policy = None
+                    # What the policies say nothing about is left as it was registered
+                    _policy = {k: v for k, v in _policy.items() if v}
 
             if _policy:
                 _response.update(_policy)
-- 
2.43.0


From 6a87360de3e029a40a83ee2b33bb888acb047d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:38 +0000
Subject: [PATCH 40/90] fix: a subordinate is listed as trust marked when it
 shows someone else's entity configuration

---
 src/fedservice/entity/server/list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index f3e993f..75df074 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -96,5 +96,8 @@ class List(Endpoint):
             keyjar = import_jwks(keyjar, conf['jwks'], entity_id)
             _jwt = JWT(key_jar=keyjar)
             _ec = _jwt.unpack(_entity_configuration)
+            if _ec['iss'] != entity_id or _ec['sub'] != entity_id:
+                logger.warning(f"Got someone else's entity configuration from {entity_id}")
+                continue
             sub[entity_id] = _ec
         return sub
-- 
2.43.0


From ad01df8a523de573cdff8590e9779091b759daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:50 +0000
Subject: [PATCH 41/90] fix: a resolve response is said to be valid longer than
 the trust chain it is built on

---
 src/fedservice/entity/server/resolve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fedservice/entity/server/resolve.py b/src/fedservice/entity/server/resolve.py
index 7428323..ecfbd25 100644
--- a/src/fedservice/entity/server/resolve.py
+++ b/src/fedservice/entity/server/resolve.py
@@ -2,6 +2,7 @@ import logging
 from typing import Optional
 from typing import Union
 
+from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.message import Message
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
@@ -55,6 +56,7 @@ class Resolve(Endpoint):
                                        sub=request["sub"],
                                        key_jar=_federation_entity.get_attribute('keyjar'),
                                        metadata=metadata,
+                                       lifetime=_chain.exp - utc_time_sans_frac(),
                                        trust_chain=trust_chain)
         return {'response_args': _jws}
 
-- 
2.43.0


From ba614915b2a8db460bd1643530a902ccd119ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:01 +0000
Subject: [PATCH 42/90] fix: a resolver refuses a subject whose statements have
 left the caches since they were verified

---
 src/fedservice/entity/server/resolve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/server/resolve.py b/src/fedservice/entity/server/resolve.py
index ecfbd25..b2fbb16 100644
--- a/src/fedservice/entity/server/resolve.py
+++ b/src/fedservice/entity/server/resolve.py
@@ -49,8 +49,11 @@ class Resolve(Endpoint):
         else:
             metadata = _chain.metadata
 
-        trust_chain = _federation_entity.function.trust_chain_collector.get_chain(
-            _chain.iss_path, _trust_anchor, kwargs.get("with_ta_ec"))
+        # The statements that were verified. They may since then have left the caches
+        trust_chain = list(reversed(_chain.chain))
+        if kwargs.get("with_ta_ec"):
+            _collector = _federation_entity.function.trust_chain_collector
+            trust_chain.append(_collector.get_entity_configuration(_trust_anchor))
 
         _jws = create_entity_statement(_federation_entity.entity_id,
                                        sub=request["sub"],
-- 
2.43.0


From 5c5fa586486cfb5b4f15bb003b15068b47c02ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:29 +0000
Subject: [PATCH 43/90] fix: an exported trust chain holds the signed
 statements and not their payloads

---
 src/fedservice/entity_statement/statement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity_statement/statement.py b/src/fedservice/entity_statement/statement.py
index 267af1d..3b13c79 100644
--- a/src/fedservice/entity_statement/statement.py
+++ b/src/fedservice/entity_statement/statement.py
@@ -52,8 +52,9 @@ class TrustChain(ImpExp):
         self.err = err or {}
         self.metadata = metadata or {}
         self.exp = exp
+        self.chain = chain or []
         self.verified_chain = verified_chain
-        self.combined_policy = {}
+        self.combined_policy = combined_policy or {}
 
     def keys(self):
         return self.metadata.keys()
@@ -85,9 +86,9 @@ class TrustChain(ImpExp):
         """
         Exports the verified chain in such a way that it can be used as value on the
         trust_chain claim in an authorization or explicit registration request.
-        :return:
+        :return: List of signed statements, the trust anchors last
         """
-        return list(reversed(self.verified_chain))
+        return list(reversed(self.chain))
 
 
 def chains2dict(trust_chains: TrustChain) -> dict:
-- 
2.43.0


From b0d8d543e7c5de2b4bc5025f2b6ce85bfa05d4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:00 +0000
Subject: [PATCH 44/90] fix: a refused registration leaves no client behind and
 does not replace an earlier one

---
 .../appserver/oauth2/registration.py          | 20 ++++++++++++++-----
 src/fedservice/appserver/oidc/registration.py | 12 ++++++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 98415dc..ba8ef5f 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -360,12 +360,22 @@ class Registration(Endpoint):
 
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
+        _previous = _context.cdb.get(client_id)
         _context.cdb[client_id] = _cinfo
-        _cinfo = self.do_client_registration(
-            request,
-            client_id,
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
-        )
+        _cinfo = None
+        try:
+            _cinfo = self.do_client_registration(
+                request,
+                client_id,
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+            )
+        finally:
+            if _cinfo is None or isinstance(_cinfo, ResponseMessage):
+                # A refused registration must not leave anything behind
+                if _previous is not None:
+                    _context.cdb[client_id] = _previous
+                else:
+                    del _context.cdb[client_id]
         if isinstance(_cinfo, ResponseMessage):
             return _cinfo
 
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index 1e4cff4..6636c5f 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -96,8 +96,18 @@ class Registration(registration.Registration):
     def non_fed_process_request(self, req, **kwargs):
         if "new_id" not in kwargs:
             kwargs["new_id"] = False
+        _cdb = self.upstream_get("context").cdb
+        _client_id = req.get("client_id")
+        _previous = _cdb.get(_client_id)
         # handle the registration request as in the non-federation case.
-        return registration.Registration.process_request(self, req, authn=None, **kwargs)
+        response_info = registration.Registration.process_request(self, req, authn=None, **kwargs)
+        if "response_args" not in response_info and not kwargs["new_id"]:
+            # A refused registration must not leave anything behind
+            if _previous is not None:
+                _cdb[_client_id] = _previous
+            elif _client_id in _cdb:
+                del _cdb[_client_id]
+        return response_info
 
     @staticmethod
     def create_entity_statement(response_args, request, context,
-- 
2.43.0


From 8b1ad8e746b3ec7a9f65406c84756c3b0a15af13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:28 +0000
Subject: [PATCH 45/90] fix: the pushed authorization endpoint stores the
 request and returns a request_uri

---
 src/fedservice/appserver/oauth2/pushed_authorization.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index a35effd..5267fe0 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -5,8 +5,8 @@ from fedservice.appserver import import_client_keys
 from fedservice.entity.function import get_verified_trust_chains
 from idpyoidc.message import oauth2
 from idpyoidc.node import topmost_unit
-from idpyoidc.server.oauth2.authorization import Authorization
 from idpyoidc.server.oauth2 import authorization
+from idpyoidc.server.oauth2 import pushed_authorization
 
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
@@ -18,7 +18,7 @@ from fedservice.message import OauthClientMetadata
 logger = logging.getLogger(__name__)
 
 
-class PushedAuthorization(Authorization):
+class PushedAuthorization(pushed_authorization.PushedAuthorization):
     request_cls = oauth2.PushedAuthorizationRequest
     response_cls = oauth2.Message
     endpoint_name = "pushed_authorization_request_endpoint"
@@ -30,10 +30,8 @@ class PushedAuthorization(Authorization):
     endpoint_type = "oauth2"
 
     def __init__(self, upstream_get, **kwargs):
-        Authorization.__init__(self, upstream_get, **kwargs)
+        pushed_authorization.PushedAuthorization.__init__(self, upstream_get, **kwargs)
         # self.pre_construct.append(self._pre_construct)
-        self.post_parse_request.append(self._post_parse_request)
-        self.ttl = kwargs.get("ttl", 3600)
         self.new_client_id = ""
         # When a signed JWT is used as client credentials this matches the "aud"
         # default self.allowed_targets = [self.name]
-- 
2.43.0


From f58371365fb07bac31c3304b36e3b62d5185f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:04 +0000
Subject: [PATCH 46/90] fix: a pushed authorization request does not give the
 client another client_id than the one it has

---
 src/fedservice/appserver/oauth2/pushed_authorization.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 5267fe0..eb32251 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -32,7 +32,7 @@ class PushedAuthorization(pushed_authorization.PushedAuthorization):
     def __init__(self, upstream_get, **kwargs):
         pushed_authorization.PushedAuthorization.__init__(self, upstream_get, **kwargs)
         # self.pre_construct.append(self._pre_construct)
-        self.new_client_id = ""
+        self.new_client_id = kwargs.get('new_client_id', False)
         # When a signed JWT is used as client credentials this matches the "aud"
         # default self.allowed_targets = [self.name]
         self.allowed_targets.append("")
@@ -69,8 +69,7 @@ class PushedAuthorization(pushed_authorization.PushedAuthorization):
         req = OauthClientMetadata(**_metadata)
         req['client_id'] = entity_id
         kwargs = {}
-        if self.new_client_id:
-            kwargs['new_id'] = self.new_client_id
+        kwargs['new_id'] = self.new_client_id
 
         op = topmost_unit(self)['oauth_authorization_server']
         _registration = op.get_endpoint("registration")
-- 
2.43.0


From 91f9abd250f6495cdc982c0e749c749cc4746926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:34 +0000
Subject: [PATCH 47/90] fix: a client registered automatically is kept when
 someone fails to register it anew

---
 src/fedservice/appserver/oidc/authorization.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index ee838dc..1231446 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -103,8 +103,6 @@ class Authorization(authorization.Authorization):
         client_info = _context.cdb.get(_cid)
         if client_info is None or "automatic_registered" in client_info:
             if 'automatic' in _context.provider_info.get('client_registration_types_supported', []):
-                if client_info and "automatic_registered" in client_info:  # Remove the old one
-                    del _context.cdb[_cid]
                 # try the federation way
                 _trust_chain = request.get('trust_chain', [])
                 registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
-- 
2.43.0


From afd96d3e995c0a89d568f453ce4a1053f2691f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:27 +0000
Subject: [PATCH 48/90] fix: the issuer of a request object is only registered
 where automatic registration is supported

---
 src/fedservice/appserver/oauth2/authorization.py     |  6 ++++++
 .../appserver/oauth2/pushed_authorization.py         |  6 ++++++
 src/fedservice/appserver/oidc/authorization.py       | 12 +++++++++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 72f1506..74134d1 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -47,6 +47,12 @@ class Authorization(authorization.Authorization):
         return request
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        # Same conditions as if the issuer had made the request itself
+        if iss in _context.cdb:
+            return None
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index eb32251..e0c1a6d 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -38,6 +38,12 @@ class PushedAuthorization(pushed_authorization.PushedAuthorization):
         self.allowed_targets.append("")
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        # Same conditions as if the issuer had made the request itself
+        if iss in _context.cdb:
+            return None
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 1231446..f61f039 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -47,7 +47,17 @@ class Authorization(authorization.Authorization):
         return request
 
     def find_client_keys(self, iss):
-        return self.do_automatic_registration(iss, [])
+        _context = self.upstream_get("context")
+        # Same conditions as if the issuer had made the request itself
+        client_info = _context.cdb.get(iss)
+        if client_info and "automatic_registered" not in client_info:
+            return None
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
+        client_id = self.do_automatic_registration(iss, [])
+        if client_id:
+            _context.cdb[client_id]["automatic_registered"] = True
+        return client_id
 
     def do_automatic_registration(self, client_entity_id: str, provided_trust_chain: List[str]):
         if provided_trust_chain:
-- 
2.43.0


From 75b7d1b651c6cf41368b660a59e64564b202de0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:57 +0000
Subject: [PATCH 49/90] fix: an authorization request is taken only from the
 client that made it

---
 src/fedservice/appserver/oauth2/authorization.py | 7 +++++++
 src/fedservice/appserver/oidc/authorization.py   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 74134d1..0cd2383 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -4,6 +4,7 @@ from typing import Optional
 
 from idpyoidc.message import oauth2
 from idpyoidc.message.oauth2 import OauthClientMetadata
+from idpyoidc.message.oidc import verified_claim_name
 from idpyoidc.node import topmost_unit
 from idpyoidc.server.oauth2 import authorization
 
@@ -43,6 +44,12 @@ class Authorization(authorization.Authorization):
         self.config = conf or {}
 
     def _reset_client_id(self, request, client_id, context, **kwargs):
+        # The client is the one the request says that it comes from and the one that signed it
+        _verified = request.get(verified_claim_name("request")) or {}
+        for _id in [request.get("client_id"), _verified.get("iss")]:
+            if _id and _id != client_id and context.cdb.get(_id, {}).get("client_id") != client_id:
+                return self.error_cls(error="invalid_request",
+                                      error_description="Not a request from the client")
         request['client_id'] = client_id
         return request
 
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index f61f039..d605811 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -4,6 +4,7 @@ from typing import Optional
 
 from idpyoidc.message import oidc
 from idpyoidc.message.oidc import RegistrationRequest
+from idpyoidc.message.oidc import verified_claim_name
 from idpyoidc.node import topmost_unit
 from idpyoidc.server.oidc import authorization
 
@@ -43,6 +44,12 @@ class Authorization(authorization.Authorization):
         self.config = conf or {}
 
     def _reset_client_id(self, request, client_id, context, **kwargs):
+        # The client is the one the request says that it comes from and the one that signed it
+        _verified = request.get(verified_claim_name("request")) or {}
+        for _id in [request.get("client_id"), _verified.get("iss")]:
+            if _id and _id != client_id and context.cdb.get(_id, {}).get("client_id") != client_id:
+                return self.error_cls(error="invalid_request",
+                                      error_description="Not a request from the client")
         request['client_id'] = client_id
         return request
 
-- 
2.43.0


From 77c602741b0db2002d452bf4f498801722407298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:51 +0000
Subject: [PATCH 50/90] fix: keys that a client does not have in its new
 registration are no longer its keys

---
 src/fedservice/appserver/oidc/registration.py | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index 6636c5f..2094902 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -1,5 +1,7 @@
 import logging
 
+from cryptojwt.key_bundle import KeyBundle
+
 from fedservice.exception import NoTrustedChains
 from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.server.oidc import registration
@@ -101,7 +103,12 @@ class Registration(registration.Registration):
         _previous = _cdb.get(_client_id)
         # handle the registration request as in the non-federation case.
         response_info = registration.Registration.process_request(self, req, authn=None, **kwargs)
-        if "response_args" not in response_info and not kwargs["new_id"]:
+        if kwargs["new_id"]:
+            return response_info
+
+        if "response_args" in response_info:
+            self.withdraw_keys(_client_id, _previous or {}, _cdb[_client_id])
+        else:
             # A refused registration must not leave anything behind
             if _previous is not None:
                 _cdb[_client_id] = _previous
@@ -109,6 +116,21 @@ class Registration(registration.Registration):
                 del _cdb[_client_id]
         return response_info
 
+    def withdraw_keys(self, client_id, previous, present):
+        """
+        Keys in an earlier registration, that are not in the present, are no longer the client's
+
+        :param client_id: The client identifier
+        :param previous: What was known about the client before the registration
+        :param present: What is known about the client now
+        """
+        _previous, _present = [KeyBundle((info.get("jwks") or {}).get("keys", []))
+                               for info in (previous, present)]
+        for key in _previous.difference(_present):
+            for bundle in self.upstream_get('attribute', 'keyjar')[client_id]:
+                while key in bundle:
+                    bundle.remove(key)
+
     @staticmethod
     def create_entity_statement(response_args, request, context,
                                 **kwargs):
-- 
2.43.0


From e59269e679d599787dd841c78856f3d7f4f44b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:48 +0000
Subject: [PATCH 51/90] fix: a registration response must be about a chain to
 the trust anchor it names

A client with chains to several trust anchors refused every response, and one
without a chain to the named anchor accepted it, with the policies of another.
---
 src/fedservice/appclient/oauth2/registration.py | 3 +++
 src/fedservice/appclient/oidc/registration.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index 4fd6966..eb77be8 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -179,6 +179,9 @@ class Registration(registration.Registration):
             # This is the trust chain from myself to the TA
             _trust_chains = get_verified_trust_chains(self, entity_id=self.upstream_get('attribute',
                                                                                         'entity_id'))
+            # I may have chains to other trust anchors too
+            _trust_chains = [tc for tc in _trust_chains
+                             if tc.anchor == payload['trust_anchor_id']]
 
             # should only be one chain
             if len(_trust_chains) != 1:
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 863f5f8..4c09f67 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -161,6 +161,9 @@ class Registration(registration.Registration):
                                                                             'entity_id'),
                                                 stop_at=payload['trust_anchor_id'])
             _trust_chains = verify_trust_chains(_federation_entity, _chains, _ec)
+            # I may have chains to other trust anchors too
+            _trust_chains = [tc for tc in _trust_chains
+                             if tc.anchor == payload['trust_anchor_id']]
             # should only be one chain
             if len(_trust_chains) != 1:
                 raise SystemError(f"More then one chain ending in {payload['trust_anchor_id']}")
-- 
2.43.0


From fb2a9771c1f0180207141db76e950c85c531b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 52/90] fix: symmetric keys, like client secrets, are never
 published

The secret of a client was part of the jwks in its entity configuration and in
its metadata.
---
 src/fedservice/appclient/__init__.py      |  9 +++++++--
 src/fedservice/entity/utils.py            | 11 +++++++++++
 src/fedservice/entity_statement/create.py |  4 +++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/appclient/__init__.py b/src/fedservice/appclient/__init__.py
index ee9d2f7..0d86da4 100644
--- a/src/fedservice/appclient/__init__.py
+++ b/src/fedservice/appclient/__init__.py
@@ -27,6 +27,7 @@ from idpyoidc.node import ClientUnit
 
 from fedservice.defaults import COMBINED_DEFAULT_OAUTH2_SERVICES
 from fedservice.defaults import COMBINED_DEFAULT_OIDC_SERVICES
+from fedservice.entity.utils import public_jwks
 from fedservice.message import OauthClientMetadata
 from fedservice.message import OIDCRPMetadata
 
@@ -149,8 +150,12 @@ class ClientEntity(ClientUnit):
             elif self.client_type == "oidc":
                 entity_type = "openid_relying_party"
 
-        return self.context.claims.get_client_metadata(entity_type=entity_type,
-                                                       metadata_schema=self.metadata_class)
+        metadata = self.context.claims.get_client_metadata(entity_type=entity_type,
+                                                           metadata_schema=self.metadata_class)
+        if "jwks" in metadata[entity_type]:
+            # A client secret is not for everyone to see
+            metadata[entity_type]["jwks"] = public_jwks(metadata[entity_type]["jwks"])
+        return metadata
 
     def get_registration_metadata(self, entity_type="", *args):
         if not entity_type:
diff --git a/src/fedservice/entity/utils.py b/src/fedservice/entity/utils.py
index 2352bd0..9cf2f3b 100644
--- a/src/fedservice/entity/utils.py
+++ b/src/fedservice/entity/utils.py
@@ -36,6 +36,17 @@ def get_federation_entity(unit):
         return None
 
 
+def public_jwks(jwks):
+    """
+    The keys of a JWKS that can be made public. Symmetric keys, like client secrets, are always
+    complete when serialized.
+
+    :param jwks: A JWKS as a dictionary
+    :return: A JWKS as a dictionary
+    """
+    return {"keys": [key for key in jwks.get("keys", []) if key.get("kty") != "oct"]}
+
+
 def get_verified_jwks(unit, _signed_jwks_uri):
     # Fetch a signed JWT that contains a JWKS.
     # Verify the signature on the JWS with a federation key
diff --git a/src/fedservice/entity_statement/create.py b/src/fedservice/entity_statement/create.py
index 3fe26a8..9c9ae2c 100644
--- a/src/fedservice/entity_statement/create.py
+++ b/src/fedservice/entity_statement/create.py
@@ -3,6 +3,8 @@ from typing import Callable
 
 from cryptojwt.jwt import JWT
 
+from fedservice.entity.utils import public_jwks
+
 logger = logging.getLogger(__name__)
 
 
@@ -53,7 +55,7 @@ def create_entity_statement(iss, sub, key_jar, metadata=None, metadata_policy=No
             msg['jwks'] = kwargs['jwks']
         else:
             # The public signing keys of the subject
-            msg['jwks'] = key_jar.export_jwks()
+            msg['jwks'] = public_jwks(key_jar.export_jwks())
 
     packer = JWT(key_jar=key_jar, iss=iss, lifetime=lifetime)
 
-- 
2.43.0


From 6c6df959dce6cd8a603e25bf38018300c699421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 53/90] fix: authority hints and trust marks can come from
 files in all statements

The name of the file was put in the statement instead of its content.
---
 src/fedservice/appclient/oidc/registration.py        | 2 +-
 src/fedservice/entity/context.py                     | 2 +-
 src/fedservice/entity/server/entity_configuration.py | 6 +-----
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 4c09f67..2dcb34f 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -76,7 +76,7 @@ class Registration(registration.Registration):
 
         kwargs = {}
         if _context.trust_marks:
-            kwargs["trust_marks"] = _context.trust_marks
+            kwargs["trust_marks"] = _context.get_trust_marks()
 
         _jws = _context.create_entity_statement(
             iss=_entity_id,
diff --git a/src/fedservice/entity/context.py b/src/fedservice/entity/context.py
index 20467b1..932baee 100644
--- a/src/fedservice/entity/context.py
+++ b/src/fedservice/entity/context.py
@@ -115,7 +115,7 @@ class FederationContext(ImpExp):
         key_jar = key_jar or self.upstream_get("attribute", "keyjar")
 
         if not authority_hints:
-            authority_hints = self.authority_hints
+            authority_hints = self.get_authority_hints()
         if not lifetime:
             lifetime = self.default_lifetime
 
diff --git a/src/fedservice/entity/server/entity_configuration.py b/src/fedservice/entity/server/entity_configuration.py
index b3fea94..4d7baa9 100644
--- a/src/fedservice/entity/server/entity_configuration.py
+++ b/src/fedservice/entity/server/entity_configuration.py
@@ -1,4 +1,3 @@
-from typing import Callable
 from typing import Optional
 from typing import Union
 
@@ -39,10 +38,7 @@ class EntityConfiguration(Endpoint):
             _metadata = _fed_entity.get_metadata()
 
         if _fed_entity.context.trust_marks:
-            if isinstance(_fed_entity.context.trust_marks, Callable):
-                args = {"trust_marks": _fed_entity.context.get_trust_marks()}
-            else:
-                args = {"trust_marks": _fed_entity.context.trust_marks}
+            args = {"trust_marks": _fed_entity.context.get_trust_marks()}
         else:
             args = {}
 
-- 
2.43.0


From 2692fa7d03fa7cd9ac732975e56748af2c6b74b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:13 +0000
Subject: [PATCH 54/90] fix: the fetch endpoint tells the authority hints of
 the entity itself

---
 src/fedservice/entity/server/fetch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index 0f3cf63..c02fc2e 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -42,7 +42,8 @@ class Fetch(Endpoint):
                                           sub=_entity.context.entity_id,
                                           key_jar=_keyjar,
                                           metadata=_metadata,
-                                          authority_hints=self.upstream_get('authority_hints'))
+                                          authority_hints=_server.upstream_get(
+                                              'authority_hints'))
         else:
             _server = self.upstream_get("unit")
             # Contains jwks and possibly entity type and authority_hints
-- 
2.43.0


From 094b8038a90a9c16893f9c2c9e4bfa5b0bcf155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:18 +0000
Subject: [PATCH 55/90] fix: responses that must be signed are never accepted
 unsigned

---
 .../entity/client/entity_configuration.py       |  1 +
 .../entity/client/entity_statement.py           |  1 +
 src/fedservice/entity/client/resolve.py         |  1 +
 src/fedservice/entity/service.py                | 17 +++++++++++++++++
 4 files changed, 20 insertions(+)

diff --git a/src/fedservice/entity/client/entity_configuration.py b/src/fedservice/entity/client/entity_configuration.py
index ce29de8..955a75a 100644
--- a/src/fedservice/entity/client/entity_configuration.py
+++ b/src/fedservice/entity/client/entity_configuration.py
@@ -38,6 +38,7 @@ class EntityConfiguration(FederationService):
     service_name = "entity_configuration"
     http_method = "GET"
     response_body_type = "jwt"
+    signed_response = True
     response_content_type = "application/entity-statement+jwt"
 
     def __init__(self,
diff --git a/src/fedservice/entity/client/entity_statement.py b/src/fedservice/entity/client/entity_statement.py
index 2bceda9..69b3b13 100644
--- a/src/fedservice/entity/client/entity_statement.py
+++ b/src/fedservice/entity/client/entity_statement.py
@@ -39,6 +39,7 @@ class EntityStatement(FederationService):
     http_method = "GET"
     endpoint_name = "federation_fetch_endpoint"
     response_body_type = "jose"
+    signed_response = True
     response_content_type = "application/entity-statement+jwt"
 
     def __init__(self,
diff --git a/src/fedservice/entity/client/resolve.py b/src/fedservice/entity/client/resolve.py
index 165d54e..ffaffc1 100644
--- a/src/fedservice/entity/client/resolve.py
+++ b/src/fedservice/entity/client/resolve.py
@@ -19,6 +19,7 @@ class Resolve(FederationService):
     service_name = "resolve"
     http_method = "GET"
     response_body_type = "jose"
+    signed_response = True
 
     def __init__(self,
                  upstream_get: Callable,
diff --git a/src/fedservice/entity/service.py b/src/fedservice/entity/service.py
index 64339f5..ae3ba7c 100644
--- a/src/fedservice/entity/service.py
+++ b/src/fedservice/entity/service.py
@@ -8,6 +8,23 @@ from fedservice.entity.utils import get_federation_entity
 
 
 class FederationService(Service):
+    # Is the response always a signed JWT
+    signed_response = False
+
+    def parse_response(
+            self,
+            info,
+            sformat: Optional[str] = "",
+            state: Optional[str] = "",
+            behaviour_args: Optional[dict] = None,
+            **kwargs,
+    ):
+        if self.signed_response:
+            # No matter what the sender claims it to be
+            sformat = "jwt"
+        return Service.parse_response(self, info, sformat=sformat, state=state,
+                                      behaviour_args=behaviour_args, **kwargs)
+
     def gather_verify_arguments(
             self,
             response: Optional[Union[dict, Message]] = None,
-- 
2.43.0


From aef2b359b61cfa7840306fe157c242929bcf1ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:38 +0000
Subject: [PATCH 56/90] fix: the answer of another entity is about the entity
 that was asked about

---
 src/fedservice/entity/client/__init__.py             | 10 +++++++++-
 src/fedservice/entity/client/entity_configuration.py |  8 ++++++++
 src/fedservice/entity/client/entity_statement.py     |  3 +++
 src/fedservice/entity/client/resolve.py              |  3 +++
 src/fedservice/entity/service.py                     |  6 ++++++
 5 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/client/__init__.py b/src/fedservice/entity/client/__init__.py
index 1d40d71..e018073 100644
--- a/src/fedservice/entity/client/__init__.py
+++ b/src/fedservice/entity/client/__init__.py
@@ -27,6 +27,7 @@ from requests import request
 
 from fedservice.defaults import DEFAULT_FEDERATION_ENTITY_SERVICES
 from fedservice.entity import FederationContext
+from fedservice.entity.service import FederationService
 
 logger = logging.getLogger(__name__)
 
@@ -305,11 +306,18 @@ class FederationClient(FederationClientEntity):
         logger.debug("do_request info: {}".format(_info))
 
         _state = kwargs.get("state", "")
-        return self.service_request(
+        response = self.service_request(
             _srv, response_body_type=response_body_type, state=_state,
             behaviour_args=behaviour_args, **_info
         )
 
+        if isinstance(_srv, FederationService) and isinstance(response, Message):
+            _subject = _srv.asked_about(request_args=request_args, **kwargs)
+            if _subject and response.get("sub", _subject) != _subject:
+                raise ValueError(f"Asked about '{_subject}' got '{response['sub']}'")
+
+        return response
+
     def set_client_id(self, client_id):
         self.get_context().set("client_id", client_id)
 
diff --git a/src/fedservice/entity/client/entity_configuration.py b/src/fedservice/entity/client/entity_configuration.py
index 955a75a..3f0561f 100644
--- a/src/fedservice/entity/client/entity_configuration.py
+++ b/src/fedservice/entity/client/entity_configuration.py
@@ -49,6 +49,10 @@ class EntityConfiguration(FederationService):
         self.httpc = requests.request
         self.httpc_params = {}
 
+    def asked_about(self, request_args: Optional[dict] = None, **kwargs) -> Optional[str]:
+        _args = request_args or kwargs
+        return _args.get("entity_id", _args.get("iss"))
+
     def get_request_parameters(
             self, request_args=None, method="", request_body_type="", authn_method="",
             tenant: Optional[bool] = False, **kwargs
@@ -112,6 +116,10 @@ class EntityConfiguration(FederationService):
         return _info
 
     def post_parse_response(self, response, **kwargs):
+        if response["iss"] != response["sub"]:
+            raise ValueError(f"Not an entity configuration: '{response['iss']}' about "
+                             f"'{response['sub']}'")
+
         root = get_federation_entity(self)
         _collector = root.function.trust_chain_collector
         _collector.config_cache[response["iss"]] = response
diff --git a/src/fedservice/entity/client/entity_statement.py b/src/fedservice/entity/client/entity_statement.py
index 69b3b13..800fa60 100644
--- a/src/fedservice/entity/client/entity_statement.py
+++ b/src/fedservice/entity/client/entity_statement.py
@@ -47,6 +47,9 @@ class EntityStatement(FederationService):
                  conf: Optional[Union[dict, Configuration]] = None):
         FederationService.__init__(self, upstream_get, conf=conf)
 
+    def asked_about(self, request_args: Optional[dict] = None, **kwargs) -> Optional[str]:
+        return kwargs.get("subject")
+
     def get_request_parameters(
             self,
             request_args: Optional[dict] = None,
diff --git a/src/fedservice/entity/client/resolve.py b/src/fedservice/entity/client/resolve.py
index ffaffc1..a20fbcc 100644
--- a/src/fedservice/entity/client/resolve.py
+++ b/src/fedservice/entity/client/resolve.py
@@ -26,6 +26,9 @@ class Resolve(FederationService):
                  conf: Optional[Union[dict, Configuration]] = None):
         FederationService.__init__(self, upstream_get, conf=conf)
 
+    def asked_about(self, request_args: Optional[dict] = None, **kwargs) -> Optional[str]:
+        return (request_args or {}).get("sub")
+
     def get_request_parameters(
             self,
             request_args: Optional[dict] = None,
diff --git a/src/fedservice/entity/service.py b/src/fedservice/entity/service.py
index ae3ba7c..d03d23f 100644
--- a/src/fedservice/entity/service.py
+++ b/src/fedservice/entity/service.py
@@ -25,6 +25,12 @@ class FederationService(Service):
         return Service.parse_response(self, info, sformat=sformat, state=state,
                                       behaviour_args=behaviour_args, **kwargs)
 
+    def asked_about(self, request_args: Optional[dict] = None, **kwargs) -> Optional[str]:
+        """
+        :return: The entity a response to the request must be about. None if it could be any entity.
+        """
+        return None
+
     def gather_verify_arguments(
             self,
             response: Optional[Union[dict, Message]] = None,
-- 
2.43.0


From fff3c1b34d0b3af727ef11c1d27236ac94eee2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 57/90] fix: entities that do not answer do not stop or pollute
 the search for entities

---
 src/fedservice/entity/__init__.py             | 71 +++++++++++--------
 src/fedservice/entity/client/list.py          |  2 +
 .../entity/function/trust_anchor.py           |  2 +
 3 files changed, 44 insertions(+), 31 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 0eb9684..d242503 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -326,52 +326,61 @@ class FederationEntity(Unit):
         # None if not there or outdated
         _ec = self.function.trust_chain_collector.config_cache[subordinate]
         if not _ec:
-            _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
-
-            # add subjects key/-s to keyjar. What a superior says never changes the keys of a trust
-            # anchor or of this entity itself
-            if _es["sub"] not in [self.entity_id, *self.trust_anchors]:
-                _kj = self.get_federation_entity().keyjar
-                _kj = import_jwks(_kj, _es["jwks"], _es["sub"])
-
-            # Fetch Entity Configuration
-            _ec = self.client.do_request("entity_configuration", entity_id=subordinate)
+            # An entity that can not be reached must not hide the rest of the federation
+            try:
+                _es = self.client.do_request("entity_statement", issuer=superior,
+                                             subject=subordinate)
+
+                # add subjects key/-s to keyjar. What a superior says never changes the keys of a
+                # trust anchor or of this entity itself
+                if _es["sub"] not in [self.entity_id, *self.trust_anchors]:
+                    _kj = self.get_federation_entity().keyjar
+                    _kj = import_jwks(_kj, _es["jwks"], _es["sub"])
+
+                # Fetch Entity Configuration
+                _ec = self.client.do_request("entity_configuration", entity_id=subordinate)
+            except Exception as err:
+                logger.warning(f"Could not get information about {subordinate}: {err}")
+                return []
 
-        if entity_type in _ec["metadata"]:
+        _metadata = _ec.get("metadata", {})
+        if entity_type in _metadata:
             _issuers = [_ec["sub"]]
         else:
             _issuers = []
 
-        if "federation_list_endpoint" not in _ec["metadata"]["federation_entity"]:
+        if "federation_list_endpoint" not in _metadata.get("federation_entity", {}):
             return _issuers
 
         # One step down the tree
         # All subordinates that are of a specific entity_type
-        _added_issuers = self.client.do_request("list",
-                                                entity_id=subordinate,
-                                                entity_type=entity_type)
-        if _added_issuers is None:
-            pass
-        else:
-            _issuers.extend(_added_issuers)
+        _issuers.extend(self.list_subordinates(subordinate, entity_type=entity_type))
 
         # All subordinates that are intermediates
-        _intermediates = self.client.do_request("list",
-                                                entity_id=subordinate,
-                                                intermediate=True)
-
         # For all intermediates go further down the tree
-        if _intermediates:
-            for entity_id in _intermediates:
-                if entity_id in seen:
-                    logger.warning(f"Loop detected at {entity_id}")
-                    continue
-                _ids = self.trawl(subordinate, entity_id, entity_type, seen=seen)
-                if _ids:
-                    _issuers.extend(_ids)
+        for entity_id in self.list_subordinates(subordinate, intermediate=True):
+            if entity_id in seen:
+                logger.warning(f"Loop detected at {entity_id}")
+                continue
+            _issuers.extend(self.trawl(subordinate, entity_id, entity_type, seen=seen))
 
         return _issuers
 
+    def list_subordinates(self, entity_id, **kwargs):
+        """
+        The subordinates an entity lists. Empty if it does not answer with a list.
+        """
+        try:
+            _list = self.client.do_request("list", entity_id=entity_id, **kwargs)
+        except Exception as err:
+            logger.warning(f"Could not list the subordinates of {entity_id}: {err}")
+            return []
+
+        if not isinstance(_list, list):
+            logger.warning(f"{entity_id} did not list its subordinates")
+            return []
+        return _list
+
     def verify_trust_mark(self, trust_mark: str, check_with_issuer: Optional[bool] = True):
         _trust_mark_payload = get_payload(trust_mark)
         _tmi_trust_chains = self.get_trust_chains(_trust_mark_payload['iss'])
diff --git a/src/fedservice/entity/client/list.py b/src/fedservice/entity/client/list.py
index f269ccd..e736a29 100644
--- a/src/fedservice/entity/client/list.py
+++ b/src/fedservice/entity/client/list.py
@@ -45,6 +45,8 @@ class List(FederationService):
         """
         if not endpoint:
             endpoint = get_verified_endpoint(self, entity_id, self.endpoint_name)
+            if not endpoint:
+                return None
 
         qpart = {}
         for arg in ["entity_type", "trust_marked", "trust_mark_id", "intermediate"]:
diff --git a/src/fedservice/entity/function/trust_anchor.py b/src/fedservice/entity/function/trust_anchor.py
index 483226f..ae824c6 100644
--- a/src/fedservice/entity/function/trust_anchor.py
+++ b/src/fedservice/entity/function/trust_anchor.py
@@ -26,6 +26,8 @@ def get_verified_endpoint(unit, entity_id: str, endpoint_name: str) -> Optional[
             endpoint = None
     else:
         _trust_chains = get_verified_trust_chains(unit, entity_id)
+        if not _trust_chains:
+            return None
         _trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         try:
             endpoint = _trust_chain.metadata["federation_entity"].get(endpoint_name)
-- 
2.43.0


From 96acf515be26acce6d984afbd25474cd1f82f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:52 +0000
Subject: [PATCH 58/90] fix: who asks the trust anchor that it was told to use
 and is not stopped by one faulty entity

---
 src/fedservice/entity/server/who.py | 60 +++++++++++++++++------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index c2dc3ab..ad85a51 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -43,35 +43,41 @@ class Who(Endpoint):
 
         # Am I the TA or not
         if trust_anchor and trust_anchor == self.upstream_get("attribute", "entity_id"):
-            # list my subordinates
-            list_resp = _federation_entity.do_request(
-                'list', entity_id=self.upstream_get("attribute", "entity_id"))
+            pass
         elif trust_anchor:
-            # ask the TA for it's subordinates
             # Check that it's a TA I trust
             if trust_anchor not in list(_federation_entity.trust_anchors.keys()):
                 raise NoTrustedClaims("Got a Trust anchor I don't trust")
-
-            list_resp = _federation_entity.do_request('list', entity_id=trust_anchor)
         else: #
             raise AttributeError("Missing trust anchor specification")
 
-        # print(f"Subordinates to TA: {list_resp}")
-        for entity_id in list_resp:
+        # list the TA's subordinates
+        for entity_id in _federation_entity.list_subordinates(trust_anchor):
             servers.extend(
-                _federation_entity.trawl(_federation_entity.entity_id, entity_id,
-                                         entity_type=_entity_type))
+                _federation_entity.trawl(trust_anchor, entity_id, entity_type=_entity_type))
 
         _srv = {}
         credential_type = request.get("credential_type", self.credential_type)
-        if credential_type:
-            for eid in set(servers):
+        for eid in set(servers):
+            try:
                 _metadata = _federation_entity.get_verified_metadata(eid)
-                # logger.info(json.dumps(oci_metadata, sort_keys=True, indent=4))
-                for cs in _metadata['openid_credential_issuer']["credentials_supported"]:
-                    if credential_type in cs["credential_definition"]["type"]:
-                        _srv[eid] = _metadata
-                        break
+            except Exception as err:
+                logger.warning(f"No verified metadata for {eid}: {err}")
+                continue
+
+            if not _metadata:
+                continue
+
+            if not credential_type:
+                _srv[eid] = _metadata
+                continue
+
+            # logger.info(json.dumps(oci_metadata, sort_keys=True, indent=4))
+            for cs in _metadata.get("openid_credential_issuer", {}).get(
+                    "credentials_supported", []):
+                if credential_type in cs["credential_definition"]["type"]:
+                    _srv[eid] = _metadata
+                    break
 
         tm_id = request.get("trust_mark_id", self.trust_mark_id)
         if tm_id:
@@ -79,17 +85,21 @@ class Who(Endpoint):
             for eid, metadata in _srv.items():
                 _trust_chains = _federation_entity.get_trust_chains(eid)
                 if not _trust_chains:
-                    return "Couldn't collect Trust Chains", 400
-                else:
-                    _trust_chain = _trust_chains[0]
+                    continue
 
-                _ec = _trust_chain.verified_chain[-1]
-                if "trust_marks" in _ec:
-                    for _mark in _ec["trust_marks"]:
+                _ec = _trust_chains[0].verified_chain[-1]
+                for _mark in _ec.get("trust_marks", []):
+                    try:
                         _verified_trust_mark = _federation_entity.verify_trust_mark(
                             _mark, check_with_issuer=True)
-                        if _verified_trust_mark.get("id") == tm_id:
-                            server_to_use.append(eid)
+                    except Exception as err:
+                        logger.warning(f"Could not verify a trust mark of {eid}: {err}")
+                        continue
+
+                    if (_verified_trust_mark and _verified_trust_mark.get("id") == tm_id
+                            and _verified_trust_mark.get("sub") == eid):
+                        server_to_use.append(eid)
+                        break
         else:
             server_to_use = list(_srv.keys())
 
-- 
2.43.0


From 61e8a13a50b2623ce2c883f0ed7d52a974e79bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:46 +0000
Subject: [PATCH 59/90] fix: the endpoints of a trust anchor come from what it
 says itself and that still is valid

---
 src/fedservice/entity/function/trust_anchor.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/entity/function/trust_anchor.py b/src/fedservice/entity/function/trust_anchor.py
index ae824c6..d020287 100644
--- a/src/fedservice/entity/function/trust_anchor.py
+++ b/src/fedservice/entity/function/trust_anchor.py
@@ -1,18 +1,21 @@
 from typing import Optional
 
-from cryptojwt.jws.jws import factory
-
+from fedservice.entity.function import get_payload
 from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function import verify_trust_chain
 from fedservice.entity.utils import get_federation_entity
 
 
 def get_verified_trust_anchor_statement(federation_entity, entity_id: str):
     _collector = federation_entity.function.trust_chain_collector
     _ec = _collector.get_entity_configuration(entity_id)
-    _jwt = factory(_ec)
-    keys = federation_entity.keyjar.get_jwt_verify_keys(_jwt.jwt)
-    res = _jwt.verify_compact(keys=keys)
-    return res
+    # Must be by the trust anchor, about the trust anchor and still be valid
+    if get_payload(_ec).get("iss") != entity_id:
+        return None
+    _trust_chain = verify_trust_chain(federation_entity, [_ec])
+    if not _trust_chain:
+        return None
+    return _trust_chain.verified_chain[0]
 
 
 def get_verified_endpoint(unit, entity_id: str, endpoint_name: str) -> Optional[str]:
@@ -20,6 +23,8 @@ def get_verified_endpoint(unit, entity_id: str, endpoint_name: str) -> Optional[
 
     if entity_id in _federation_entity.trust_anchors:
         res = get_verified_trust_anchor_statement(_federation_entity, entity_id)
+        if not res:
+            return None
         try:
             endpoint = res["metadata"]["federation_entity"].get(endpoint_name)
         except KeyError:
-- 
2.43.0


From cb9c0bcef75e4c1a5381069f4c845bcf656fc5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:24 +0000
Subject: [PATCH 60/90] fix: also when asked by request_args only the asked
 entity's own configuration is accepted

---
 src/fedservice/entity/client/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/client/__init__.py b/src/fedservice/entity/client/__init__.py
index e018073..2e4cc6f 100644
--- a/src/fedservice/entity/client/__init__.py
+++ b/src/fedservice/entity/client/__init__.py
@@ -294,7 +294,8 @@ class FederationClient(FederationClientEntity):
             **kwargs
     ):
         _srv = self.service[request_type]
-        self.context.issuer = kwargs.get("entity_id", kwargs.get("issuer"))
+        self.context.issuer = kwargs.get("entity_id",
+                                         kwargs.get("issuer", (request_args or {}).get("entity_id")))
         _info = _srv.get_request_parameters(request_args=request_args,
                                             behaviour_args=behaviour_args, **kwargs)
         if not _info:
-- 
2.43.0


From 23c74eda0b5ec54898ec0207a49f5a2ae535ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:03 +0000
Subject: [PATCH 61/90] fix: the search does not take cached entity
 configurations at their word

---
 src/fedservice/entity/__init__.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index d242503..ccea68f 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -324,7 +324,7 @@ class FederationEntity(Unit):
         # seen are the entities above subordinate. To capture loops.
         seen = (seen or []) + [subordinate]
         # None if not there or outdated
-        _ec = self.function.trust_chain_collector.config_cache[subordinate]
+        _ec = self.get_cached_entity_configuration(subordinate)
         if not _ec:
             # An entity that can not be reached must not hide the rest of the federation
             try:
@@ -366,6 +366,22 @@ class FederationEntity(Unit):
 
         return _issuers
 
+    def get_cached_entity_configuration(self, entity_id):
+        """
+        A cached entity configuration is only known to be signed with a key it contains itself.
+        This one must be signed with a key that is known to belong to the entity.
+        """
+        _ec = self.function.trust_chain_collector.config_cache[entity_id]
+        if _ec:
+            _jws = _ec.get("_jws") or getattr(_ec, "_jws", None)
+            try:
+                _jwt = factory(_jws)
+                _jwt.verify_compact(keys=self.keyjar.get_jwt_verify_keys(_jwt.jwt))
+            except Exception as err:
+                logger.warning(f"Could not verify the cached information about {entity_id}: {err}")
+                return None
+        return _ec
+
     def list_subordinates(self, entity_id, **kwargs):
         """
         The subordinates an entity lists. Empty if it does not answer with a list.
-- 
2.43.0


From 38be8a7e7e017658963a7d286059109fdffddb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:42 +0000
Subject: [PATCH 62/90] fix: remember what the provider states about how a
 client can authenticate in a request

---
 src/fedservice/appclient/stand_alone_client_entity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 0ed0da5..47f768f 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -73,6 +73,7 @@ class StandAloneClientEntity(ClientEntity):
             _pi = trust_chain.metadata["openid_provider"]
             federation_entity.context.trust_chain[_pi["issuer"]] = trust_chain
             context.provider_info = context.metadata = _pi
+            context.server_metadata = trust_chain.metadata
             self._import_keys(_pi, context.keyjar, _pi["issuer"])
             return _pi
         else:
-- 
2.43.0


From caa051aabf395660f750f2d76b00e00c6158d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:12 +0000
Subject: [PATCH 63/90] fix: a provider can not give metadata and keys for
 another issuer

---
 src/fedservice/appclient/stand_alone_client_entity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 47f768f..0645289 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -71,6 +71,8 @@ class StandAloneClientEntity(ClientEntity):
             federation_entity.trust_chain_anchor = trust_chain.anchor
             # _pi = trust_chain.metadata["openid_relying_party"]
             _pi = trust_chain.metadata["openid_provider"]
+            if _pi["issuer"] != context.issuer:
+                raise ValueError(f"'{context.issuer}' can not speak for '{_pi['issuer']}'")
             federation_entity.context.trust_chain[_pi["issuer"]] = trust_chain
             context.provider_info = context.metadata = _pi
             context.server_metadata = trust_chain.metadata
-- 
2.43.0


From 1d83cacfdf45440823d487b4274d604db6aa0ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:47 +0000
Subject: [PATCH 64/90] fix: keys that a provider no longer has must not be
 used after its metadata has been collected again

---
 src/fedservice/appclient/stand_alone_client_entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 0645289..9223ec3 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -56,10 +56,10 @@ class StandAloneClientEntity(ClientEntity):
             if _hp:
                 if "verify" in _hp and "verify" not in keyjar.httpc_params:
                     keyjar.httpc_params["verify"] = _hp["verify"]
-            keyjar.load_keys(issuer, jwks_uri=resp["jwks_uri"])
+            keyjar.load_keys(issuer, jwks_uri=resp["jwks_uri"], replace=True)
         elif "jwks" in resp:
             logger.debug("'jwks' in provider info")
-            keyjar.load_keys(issuer, jwks=resp["jwks"])
+            keyjar.load_keys(issuer, jwks=resp["jwks"], replace=True)
         else:
             logger.debug("Neither jws or jwks_uri in provider info")
 
-- 
2.43.0


From abb191f14f562f0f384ffc4d222f6a200d74f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:11 +0000
Subject: [PATCH 65/90] fix: a trust mark and the record of it must agree on
 when it was issued

---
 src/fedservice/trust_mark_entity/entity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/trust_mark_entity/entity.py b/src/fedservice/trust_mark_entity/entity.py
index 031f518..c7e7c6a 100644
--- a/src/fedservice/trust_mark_entity/entity.py
+++ b/src/fedservice/trust_mark_entity/entity.py
@@ -89,7 +89,8 @@ class TrustMarkEntity(Unit):
 
         _federation_entity = get_federation_entity(self)
         packer = JWT(key_jar=_federation_entity.keyjar, iss=_federation_entity.entity_id)
-        return packer.pack(payload=content)
+        # The same issued at as in the records
+        return packer.pack(payload=content, iat=content['iat'])
 
     def dump_trust_marks(self):
         return self.issued.dumps()
-- 
2.43.0


From f06e294f038f3ae725fc3a97009af54eec13e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:30 +0000
Subject: [PATCH 66/90] fix: what a resolver answers must not outlive the trust
 chain it is based on

---
 src/fedservice/entity/server/resolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/server/resolve.py b/src/fedservice/entity/server/resolve.py
index b2fbb16..7cc0106 100644
--- a/src/fedservice/entity/server/resolve.py
+++ b/src/fedservice/entity/server/resolve.py
@@ -2,7 +2,6 @@ import logging
 from typing import Optional
 from typing import Union
 
-from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.message import Message
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
@@ -59,7 +58,8 @@ class Resolve(Endpoint):
                                        sub=request["sub"],
                                        key_jar=_federation_entity.get_attribute('keyjar'),
                                        metadata=metadata,
-                                       lifetime=_chain.exp - utc_time_sans_frac(),
+                                       lifetime=0,
+                                       exp=_chain.exp,
                                        trust_chain=trust_chain)
         return {'response_args': _jws}
 
-- 
2.43.0


From 227b2c2a51098fa803c027515c87479a39196970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:40 +0000
Subject: [PATCH 67/90] fix: withdraw old keys and undo refused registrations
 also when clients get new identifiers

---
 src/fedservice/appserver/oidc/registration.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index 2094902..8f44a81 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -100,20 +100,19 @@ class Registration(registration.Registration):
             kwargs["new_id"] = False
         _cdb = self.upstream_get("context").cdb
         _client_id = req.get("client_id")
+        _known = set(_cdb.keys())
         _previous = _cdb.get(_client_id)
         # handle the registration request as in the non-federation case.
         response_info = registration.Registration.process_request(self, req, authn=None, **kwargs)
-        if kwargs["new_id"]:
-            return response_info
-
         if "response_args" in response_info:
-            self.withdraw_keys(_client_id, _previous or {}, _cdb[_client_id])
+            _present = _cdb[response_info["response_args"]["client_id"]]
+            self.withdraw_keys(_client_id, _previous or {}, _present)
         else:
             # A refused registration must not leave anything behind
+            for _id in set(_cdb.keys()).difference(_known):
+                del _cdb[_id]
             if _previous is not None:
                 _cdb[_client_id] = _previous
-            elif _client_id in _cdb:
-                del _cdb[_client_id]
         return response_info
 
     def withdraw_keys(self, client_id, previous, present):
-- 
2.43.0


From b7c683542be597090002c30ffe2a377e7c4b7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:40 +0000
Subject: [PATCH 68/90] fix: plain request from an automatically registered
 client that got a new identifier

---
 src/fedservice/appserver/oidc/authorization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index d605811..7974d95 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -133,7 +133,9 @@ class Authorization(authorization.Authorization):
                     _context.cdb[registered_client_id]["automatic_registered"] = True
                     if registered_client_id != _cid:
                         request["client_id"] = registered_client_id
-                        kwargs["also_known_as"] = {_cid: registered_client_id}
+                        # The request names either of them
+                        kwargs["also_known_as"] = {_cid: registered_client_id,
+                                                   registered_client_id: registered_client_id}
                         client_info = _context.cdb[registered_client_id]
                         _context.cdb[_cid] = client_info
                         client_info['entity_id'] = _cid
-- 
2.43.0


From 0423884e5d001f351a3f09b69841df080185bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:59 +0000
Subject: [PATCH 69/90] fix: a trust anchor added to one entity must not become
 one of every entity built from the same dictionary

---
 src/fedservice/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 7e27057..70d84da 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -142,7 +142,8 @@ def make_federation_entity(entity_id: str,
         for id, jwk in trust_anchors.items():
             fe.keyjar = import_jwks(fe.keyjar, jwk, id)
 
-        fe.function.trust_chain_collector.trust_anchors = trust_anchors
+        # A copy, such that adding a trust anchor to this entity adds it to no other
+        fe.function.trust_chain_collector.trust_anchors = dict(trust_anchors)
 
     if subordinate:
         if "class" in subordinate and "kwargs" in subordinate:
@@ -234,7 +235,8 @@ def make_federation_combo(entity_id: str,
         for id, jwk in trust_anchors.items():
             federation_entity.keyjar = import_jwks(federation_entity.keyjar, jwk, id)
 
-        federation_entity.function.trust_chain_collector.trust_anchors = trust_anchors
+        # A copy, such that adding a trust anchor to this entity adds it to no other
+        federation_entity.function.trust_chain_collector.trust_anchors = dict(trust_anchors)
 
     if subordinate:
         if "class" in subordinate and "kwargs" in subordinate:
-- 
2.43.0


From 4fe68912c72c43a1a8642806458c6268e17d9d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:59 +0000
Subject: [PATCH 70/90] fix: a self signed trust mark must only be added to the
 entity that issued it

---
 src/fedservice/trust_mark_entity/entity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/trust_mark_entity/entity.py b/src/fedservice/trust_mark_entity/entity.py
index c7e7c6a..6ec28d1 100644
--- a/src/fedservice/trust_mark_entity/entity.py
+++ b/src/fedservice/trust_mark_entity/entity.py
@@ -196,7 +196,8 @@ class SelfSignedTrustMarkEntity(Unit):
         packer = JWT(key_jar=_federation_entity.keyjar, iss=_federation_entity.entity_id)
         _trust_mark = packer.pack(payload=content)
         entity = self.upstream_get("unit")
-        entity.context.trust_marks.append(_trust_mark)
+        # Not append, the list may have been given to other entities too
+        entity.context.trust_marks = [*entity.context.get_trust_marks(), _trust_mark]
 
         return _trust_mark
 
-- 
2.43.0


From 79326525586c1cba5bf0b95963d0db15fd2aa529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:59 +0000
Subject: [PATCH 71/90] fix: trust mark lifetimes were lost for all but the
 first entity built from a specification

---
 src/fedservice/trust_mark_entity/entity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/trust_mark_entity/entity.py b/src/fedservice/trust_mark_entity/entity.py
index 6ec28d1..3e4490e 100644
--- a/src/fedservice/trust_mark_entity/entity.py
+++ b/src/fedservice/trust_mark_entity/entity.py
@@ -37,7 +37,9 @@ class TrustMarkEntity(Unit):
         self.entity_id = entity_id or upstream_get("attribute", "entity_id")
         self.endpoint = do_endpoints({"endpoint": endpoint, "issuer": self.entity_id},
                                      self.unit_get)
-        self.trust_mark_specification = trust_mark_specification or {}
+        # Copies, since the specification may be used for more than one entity
+        self.trust_mark_specification = {k: v.copy() for k, v in
+                                         (trust_mark_specification or {}).items()}
 
         self.tm_lifetime = {}
         for entity_id, tm in self.trust_mark_specification.items():
-- 
2.43.0


From 65e18af995b74803d68e271d9cf6817c99b75c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:20 +0000
Subject: [PATCH 72/90] fix: HTTP parameters of one combo must not be used for
 others built from the same specification

---
 src/fedservice/combo/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fedservice/combo/__init__.py b/src/fedservice/combo/__init__.py
index 678bb0e..56667b4 100644
--- a/src/fedservice/combo/__init__.py
+++ b/src/fedservice/combo/__init__.py
@@ -1,4 +1,5 @@
 import logging
+from copy import copy
 from typing import Any
 from typing import Optional
 from typing import Union
@@ -12,6 +13,7 @@ from idpyoidc.node import Unit
 from idpyoidc.server.util import execute
 from requests import request
 
+from fedservice.build_entity import copy_spec
 from fedservice.entity import FederationEntity
 
 logger = logging.getLogger(__name__)
@@ -36,6 +38,8 @@ class Combo(Unit):
         for key, spec in config.items():
             if isinstance(spec, dict) and 'class' in spec:
                 if httpc_params:
+                    # Not in the specification itself, it may be used for other entities
+                    spec = copy_spec({key: spec})[key]
                     self._add_httpc_params(spec, httpc_params)
                 logger.info(f"Initiating entity type: '{key}' with config: {spec}")
                 self._part[key] = execute(spec, upstream_get=self.unit_get,
@@ -49,6 +53,7 @@ class Combo(Unit):
         spec_kwargs = spec.get("kwargs", {})
         if "config" in spec_kwargs:
             if httpc_params and "httpc_params" not in spec_kwargs["config"]:
+                spec_kwargs["config"] = copy(spec_kwargs["config"])
                 spec_kwargs["config"]["httpc_params"] = httpc_params
         else:
             if "httpc_params" not in spec_kwargs:
-- 
2.43.0


From 121ee08d08ab2bbd7984335080248b7741788cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:50 +0000
Subject: [PATCH 73/90] fix: what comes with an error status must never be
 taken for the response asked for

---
 src/fedservice/appclient/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fedservice/appclient/__init__.py b/src/fedservice/appclient/__init__.py
index 0d86da4..afacc4e 100644
--- a/src/fedservice/appclient/__init__.py
+++ b/src/fedservice/appclient/__init__.py
@@ -385,6 +385,9 @@ class ClientEntity(ClientUnit):
             except JSONDecodeError:  # So it's not JSON assume text then
                 err_resp = {"error": reqresp.text}
 
+            if "error" not in err_resp:
+                # Whatever it is, it's not what was asked for
+                err_resp = {"error": reqresp.text}
             err_resp["status_code"] = reqresp.status_code
             return err_resp
         else:
-- 
2.43.0


From ef30526237c968c740297a9c5a4bfcdc159582a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:50 +0000
Subject: [PATCH 74/90] fix: a redirect must not replace the registration a
 client has

---
 src/fedservice/appclient/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/appclient/__init__.py b/src/fedservice/appclient/__init__.py
index afacc4e..fbdb8ed 100644
--- a/src/fedservice/appclient/__init__.py
+++ b/src/fedservice/appclient/__init__.py
@@ -273,7 +273,7 @@ class ClientEntity(ClientUnit):
             service, url, method, body, response_body_type, headers, **kwargs
         )
 
-        if "error" in response:
+        if "error" in response or "http_response" in response:
             pass
         else:
             try:
-- 
2.43.0


From b744bec545ecf3ae62685a683926cf00bc31c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:55 +0000
Subject: [PATCH 75/90] fix: a replaced trust mark specification must not keep
 the lifetime of the one it replaced

---
 src/fedservice/trust_mark_entity/entity.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/entity.py b/src/fedservice/trust_mark_entity/entity.py
index 3e4490e..159c51d 100644
--- a/src/fedservice/trust_mark_entity/entity.py
+++ b/src/fedservice/trust_mark_entity/entity.py
@@ -41,12 +41,6 @@ class TrustMarkEntity(Unit):
         self.trust_mark_specification = {k: v.copy() for k, v in
                                          (trust_mark_specification or {}).items()}
 
-        self.tm_lifetime = {}
-        for entity_id, tm in self.trust_mark_specification.items():
-            if "lifetime" in tm:
-                self.tm_lifetime[entity_id] = tm["lifetime"]
-                del tm["lifetime"]
-
         if trust_mark_db:
             self.issued = init_service(trust_mark_db)
         else:
@@ -76,14 +70,15 @@ class TrustMarkEntity(Unit):
         """
         _now = utc_time_sans_frac()
         _add = {'iat': _now, 'id': id, 'sub': sub}
-        lifetime = self.tm_lifetime.get(id)
-        if lifetime:
-            _add['exp'] = _now + lifetime
 
         if id not in self.trust_mark_specification:
             raise ValueError('Unknown trust mark ID')
 
         content = self.trust_mark_specification[id].copy()
+        # The lifetime is part of the specification but not of the trust mark
+        lifetime = content.pop("lifetime", None)
+        if lifetime:
+            _add['exp'] = _now + lifetime
         content.update(_add)
         if kwargs:
             content.update(kwargs)
-- 
2.43.0


From 71e496edc12790ba3a473522984720db5a12535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:58 +0000
Subject: [PATCH 76/90] fix: modules could not be imported on their own because
 of a circular import

---
 src/fedservice/appclient/__init__.py      |  2 +-
 src/fedservice/entity/utils.py            | 11 -----------
 src/fedservice/entity_statement/create.py | 13 +++++++++++--
 3 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/fedservice/appclient/__init__.py b/src/fedservice/appclient/__init__.py
index fbdb8ed..734346a 100644
--- a/src/fedservice/appclient/__init__.py
+++ b/src/fedservice/appclient/__init__.py
@@ -27,7 +27,7 @@ from idpyoidc.node import ClientUnit
 
 from fedservice.defaults import COMBINED_DEFAULT_OAUTH2_SERVICES
 from fedservice.defaults import COMBINED_DEFAULT_OIDC_SERVICES
-from fedservice.entity.utils import public_jwks
+from fedservice.entity_statement.create import public_jwks
 from fedservice.message import OauthClientMetadata
 from fedservice.message import OIDCRPMetadata
 
diff --git a/src/fedservice/entity/utils.py b/src/fedservice/entity/utils.py
index 9cf2f3b..2352bd0 100644
--- a/src/fedservice/entity/utils.py
+++ b/src/fedservice/entity/utils.py
@@ -36,17 +36,6 @@ def get_federation_entity(unit):
         return None
 
 
-def public_jwks(jwks):
-    """
-    The keys of a JWKS that can be made public. Symmetric keys, like client secrets, are always
-    complete when serialized.
-
-    :param jwks: A JWKS as a dictionary
-    :return: A JWKS as a dictionary
-    """
-    return {"keys": [key for key in jwks.get("keys", []) if key.get("kty") != "oct"]}
-
-
 def get_verified_jwks(unit, _signed_jwks_uri):
     # Fetch a signed JWT that contains a JWKS.
     # Verify the signature on the JWS with a federation key
diff --git a/src/fedservice/entity_statement/create.py b/src/fedservice/entity_statement/create.py
index 9c9ae2c..8881b05 100644
--- a/src/fedservice/entity_statement/create.py
+++ b/src/fedservice/entity_statement/create.py
@@ -3,11 +3,20 @@ from typing import Callable
 
 from cryptojwt.jwt import JWT
 
-from fedservice.entity.utils import public_jwks
-
 logger = logging.getLogger(__name__)
 
 
+def public_jwks(jwks):
+    """
+    The keys of a JWKS that can be made public. Symmetric keys, like client secrets, are always
+    complete when serialized.
+
+    :param jwks: A JWKS as a dictionary
+    :return: A JWKS as a dictionary
+    """
+    return {"keys": [key for key in jwks.get("keys", []) if key.get("kty") != "oct"]}
+
+
 def create_entity_statement(iss, sub, key_jar, metadata=None, metadata_policy=None,
                             authority_hints=None, lifetime=86400, aud='', include_jwks=True,
                             constraints=None, **kwargs):
-- 
2.43.0


From f818258a52cac3a9ee99717580d28c163e620256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:09 +0000
Subject: [PATCH 77/90] fix: a published entity statement was about its issuer
 and by its subject

---
 src/fedservice/fetch_entity_statement/fs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/fetch_entity_statement/fs2.py b/src/fedservice/fetch_entity_statement/fs2.py
index a59c346..f49bf73 100644
--- a/src/fedservice/fetch_entity_statement/fs2.py
+++ b/src/fedservice/fetch_entity_statement/fs2.py
@@ -101,6 +101,6 @@ class FSPublisher():
         else:
             _qs = parse_qs(p.query)
             pt = urlparse(_qs['sub'][0])
-            _jws = self._create_entity_statement(p.netloc, pt.netloc)
+            _jws = self._create_entity_statement(pt.netloc, p.netloc)
 
         return MockResponse(200, f"{_jws}", headers={'Content-Type': "application/jose"})
-- 
2.43.0


From 3304841a0769b47c9975f90e21162c496968d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:09 +0000
Subject: [PATCH 78/90] fix: statements from files about entities whose ID is
 not just a host name

---
 src/fedservice/fetch_entity_statement/__init__.py |  7 +++----
 src/fedservice/fetch_entity_statement/fs2.py      | 13 +++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/fedservice/fetch_entity_statement/__init__.py b/src/fedservice/fetch_entity_statement/__init__.py
index 21e3ef2..e23afcf 100644
--- a/src/fedservice/fetch_entity_statement/__init__.py
+++ b/src/fedservice/fetch_entity_statement/__init__.py
@@ -23,15 +23,14 @@ class FetchEntityStatement:
         raise NotImplementedError()
 
     def make_entity_id(self, netloc):
+        if netloc.startswith("https://") or netloc.startswith("https%3A%2F%2F"):
+            # A complete entity ID, possibly quoted
+            return unquote_plus(netloc)
         return self.entity_id_pattern.format(netloc)
 
     def create_entity_statement(self, sub, **kwargs):
         _info = self.gather_info(sub)
         _info.update(kwargs)
         _info['jwks'] = self.keyjar.export_jwks(issuer_id=self.make_entity_id(sub))
-        if sub.startswith("https"):
-            return create_entity_statement(self.make_entity_id(self.iss), unquote_plus(sub),
-                                           self.keyjar, **_info)
-
         return create_entity_statement(self.make_entity_id(self.iss), self.make_entity_id(sub),
                                        self.keyjar, **_info)
diff --git a/src/fedservice/fetch_entity_statement/fs2.py b/src/fedservice/fetch_entity_statement/fs2.py
index f49bf73..ac0e5fd 100644
--- a/src/fedservice/fetch_entity_statement/fs2.py
+++ b/src/fedservice/fetch_entity_statement/fs2.py
@@ -2,7 +2,7 @@ import json
 import logging
 import os
 from urllib.parse import parse_qs
-from urllib.parse import unquote_plus
+from urllib.parse import quote_plus
 from urllib.parse import urlparse
 
 from idpyoidc.key_import import import_jwks_from_file
@@ -42,10 +42,7 @@ class FSFetchEntityStatement(FetchEntityStatement):
         if iss_id not in self.keyjar:
             self.load_jwks(self.iss, self.iss, self.make_entity_id(sub))
 
-        if sub.startswith("https%3A%2F%2F"):
-            sub_id = unquote_plus(sub)
-        else:
-            sub_id = self.make_entity_id(sub)
+        sub_id = self.make_entity_id(sub)
 
         logger.debug('Subject ID: %s', sub_id)
         if sub_id not in self.keyjar:
@@ -101,6 +98,10 @@ class FSPublisher():
         else:
             _qs = parse_qs(p.query)
             pt = urlparse(_qs['sub'][0])
-            _jws = self._create_entity_statement(pt.netloc, p.netloc)
+            if pt.path.strip('/'):  # Not just a host
+                sub = quote_plus(_qs['sub'][0])
+            else:
+                sub = pt.netloc
+            _jws = self._create_entity_statement(sub, p.netloc)
 
         return MockResponse(200, f"{_jws}", headers={'Content-Type': "application/jose"})
-- 
2.43.0


From 14df1132a373b762a00d7e1e6a56aadfc5a8e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:09 +0000
Subject: [PATCH 79/90] fix: the issuer's keys were taken for those of the
 first subject

---
 src/fedservice/fetch_entity_statement/fs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/fetch_entity_statement/fs2.py b/src/fedservice/fetch_entity_statement/fs2.py
index ac0e5fd..127aed8 100644
--- a/src/fedservice/fetch_entity_statement/fs2.py
+++ b/src/fedservice/fetch_entity_statement/fs2.py
@@ -40,7 +40,7 @@ class FSFetchEntityStatement(FetchEntityStatement):
         iss_id = self.make_entity_id(self.iss)
         logger.debug('Statement Issuer ID: %s', iss_id)
         if iss_id not in self.keyjar:
-            self.load_jwks(self.iss, self.iss, self.make_entity_id(sub))
+            self.load_jwks(self.iss, self.iss, iss_id)
 
         sub_id = self.make_entity_id(sub)
 
-- 
2.43.0


From 948de3e5b567b97870f6b1e0f2de271e9e34faca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:09 +0000
Subject: [PATCH 80/90] fix: symmetric keys in files must not be published

---
 src/fedservice/fetch_entity_statement/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/fetch_entity_statement/__init__.py b/src/fedservice/fetch_entity_statement/__init__.py
index e23afcf..2835da5 100644
--- a/src/fedservice/fetch_entity_statement/__init__.py
+++ b/src/fedservice/fetch_entity_statement/__init__.py
@@ -3,6 +3,7 @@ from urllib.parse import unquote_plus
 from cryptojwt import KeyJar
 
 from fedservice.entity_statement.create import create_entity_statement
+from fedservice.entity_statement.create import public_jwks
 
 
 class FetchEntityStatement:
@@ -31,6 +32,6 @@ class FetchEntityStatement:
     def create_entity_statement(self, sub, **kwargs):
         _info = self.gather_info(sub)
         _info.update(kwargs)
-        _info['jwks'] = self.keyjar.export_jwks(issuer_id=self.make_entity_id(sub))
+        _info['jwks'] = public_jwks(self.keyjar.export_jwks(issuer_id=self.make_entity_id(sub)))
         return create_entity_statement(self.make_entity_id(self.iss), self.make_entity_id(sub),
                                        self.keyjar, **_info)
-- 
2.43.0


From 61029b58c20771cec07f64eb9e017f32cb5ee9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:09 +0000
Subject: [PATCH 81/90] fix: references to files in lists were not loaded

---
 src/fedservice/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 70d84da..1a3ae0a 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -312,8 +312,8 @@ def load_values_from_file(config):
             for v in val:
                 if isinstance(v, dict):
                     _list.append(load_values_from_file(v))
-                elif isinstance(val, str) and val.startswith("file:"):
-                    res[key] = _import(val)
+                elif isinstance(v, str) and v.startswith("file:"):
+                    _list.append(_import(v))
                 else:
                     _list.append(v)
             res[key] = _list
-- 
2.43.0


From b2a3747187bfec0f8cf3433396278d33323be397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:36 +0000
Subject: [PATCH 82/90] fix: a response type must be chosen also when other
 request arguments are given

---
 src/fedservice/appclient/stand_alone_client_entity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 9223ec3..bf8d552 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -204,11 +204,11 @@ class StandAloneClientEntity(ClientEntity):
             _response_type = req_args.get("response_type")
             if _response_type:
                 return _response_type
+
+        if default_response_type in context.claims.get_usage("response_types"):
+            return default_response_type
         else:
-            if default_response_type in context.claims.get_usage("response_types"):
-                return default_response_type
-            else:
-                return context.claims.get_usage("response_types")[0]
+            return context.claims.get_usage("response_types")[0]
 
     def _get_response_mode(self, context, response_type, request_args):
         if request_args:
-- 
2.43.0


From 96db982635a34b7280f82b9240fc13e464b63bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:11 +0000
Subject: [PATCH 83/90] fix: clients without keys of their own can register
 explicitly

---
 src/fedservice/appserver/oauth2/registration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index ba8ef5f..c3d1ce6 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -299,7 +299,8 @@ class Registration(Endpoint):
                             del _cinfo[item]
 
         import_client_keys(request, _keyjar, client_id)
-        logger.debug(f"Keys for {client_id}: {_keyjar.key_summary(client_id)}")
+        if client_id in _keyjar.owners():  # not all clients have keys of their own
+            logger.debug(f"Keys for {client_id}: {_keyjar.key_summary(client_id)}")
 
         return _cinfo
 
-- 
2.43.0


From 4753bfa34568b4f7543273b7a3819aafe0c6fa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:55 +0000
Subject: [PATCH 84/90] fix: refusals are JSON, not HTML that repeats what was
 in the request

---
 dc4eu_federation/pid_issuer/views.py        | 10 +++++-----
 dc4eu_federation/query_server/views.py      | 10 +++++-----
 dc4eu_federation/trust_anchor/views.py      | 10 +++++-----
 dc4eu_federation/trust_mark_issuer/views.py |  8 ++++----
 dc4eu_federation/wallet_provider/views.py   | 10 +++++-----
 edu_federation/openid_provider/views.py     | 12 ++++++------
 edu_federation/trust_anchor/views.py        | 10 +++++-----
 edu_federation/trust_mark_issuer/views.py   |  8 ++++----
 setup_federation/pid_issuer/views.py        | 10 +++++-----
 setup_federation/query_server/views.py      | 10 +++++-----
 setup_federation/trust_anchor/views.py      | 10 +++++-----
 setup_federation/trust_mark_issuer/views.py |  8 ++++----
 setup_federation/wallet_provider/views.py   | 10 +++++-----
 13 files changed, 63 insertions(+), 63 deletions(-)

diff --git a/dc4eu_federation/pid_issuer/views.py b/dc4eu_federation/pid_issuer/views.py
index 255bf4a..904748e 100644
--- a/dc4eu_federation/pid_issuer/views.py
+++ b/dc4eu_federation/pid_issuer/views.py
@@ -102,13 +102,13 @@ def service_endpoint(endpoint):
             return make_response(json.dumps({
                 'error': 'unauthorized_client',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
         except Exception as err:
             _log.error(err)
             return make_response(json.dumps({
                 'error': 'invalid_request',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
     else:
         if request.data:
             if isinstance(request.data, str):
@@ -122,11 +122,11 @@ def service_endpoint(endpoint):
         except Exception as err:
             _log.error(err)
             err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-            return make_response(err_msg.to_json(), 400)
+            return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('parsed request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         args = endpoint.process_request(req_args)
@@ -134,7 +134,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
diff --git a/dc4eu_federation/query_server/views.py b/dc4eu_federation/query_server/views.py
index 1e90d95..479fb0c 100644
--- a/dc4eu_federation/query_server/views.py
+++ b/dc4eu_federation/query_server/views.py
@@ -88,13 +88,13 @@ def service_endpoint(endpoint):
             return make_response(json.dumps({
                 'error': 'unauthorized_client',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
         except Exception as err:
             _log.error(err)
             return make_response(json.dumps({
                 'error': 'invalid_request',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
     else:
         if request.data:
             if isinstance(request.data, str):
@@ -108,11 +108,11 @@ def service_endpoint(endpoint):
         except Exception as err:
             _log.error(err)
             err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-            return make_response(err_msg.to_json(), 400)
+            return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         args = endpoint.process_request(req_args)
@@ -120,7 +120,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
diff --git a/dc4eu_federation/trust_anchor/views.py b/dc4eu_federation/trust_anchor/views.py
index ccc550c..a8b1e67 100644
--- a/dc4eu_federation/trust_anchor/views.py
+++ b/dc4eu_federation/trust_anchor/views.py
@@ -88,13 +88,13 @@ def service_endpoint(endpoint):
             return make_response(json.dumps({
                 'error': 'unauthorized_client',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
         except Exception as err:
             _log.error(err)
             return make_response(json.dumps({
                 'error': 'invalid_request',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
     else:
         if request.data:
             if isinstance(request.data, str):
@@ -108,11 +108,11 @@ def service_endpoint(endpoint):
         except Exception as err:
             _log.error(err)
             err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-            return make_response(err_msg.to_json(), 400)
+            return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         args = endpoint.process_request(req_args)
@@ -120,7 +120,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
diff --git a/dc4eu_federation/trust_mark_issuer/views.py b/dc4eu_federation/trust_mark_issuer/views.py
index 4bc11fd..22d5bb8 100644
--- a/dc4eu_federation/trust_mark_issuer/views.py
+++ b/dc4eu_federation/trust_mark_issuer/views.py
@@ -97,15 +97,15 @@ def service_endpoint(endpoint):
         return make_response(json.dumps({
             'error': 'unauthorized_client',
             'error_description': str(err)
-        }), 400)
+        }), 400, {'Content-Type': 'application/json'})
     except Exception as err:
         _log.error(err)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         args = endpoint.process_request(req_args)
@@ -113,7 +113,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
diff --git a/dc4eu_federation/wallet_provider/views.py b/dc4eu_federation/wallet_provider/views.py
index 7c00d77..10d4f37 100644
--- a/dc4eu_federation/wallet_provider/views.py
+++ b/dc4eu_federation/wallet_provider/views.py
@@ -93,13 +93,13 @@ def service_endpoint(endpoint):
             return make_response(json.dumps({
                 'error': 'unauthorized_client',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
         except Exception as err:
             _log.error(err)
             return make_response(json.dumps({
                 'error': 'invalid_request',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
     else:
         if request.data:
             if isinstance(request.data, str):
@@ -113,11 +113,11 @@ def service_endpoint(endpoint):
         except Exception as err:
             _log.error(err)
             err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-            return make_response(err_msg.to_json(), 400)
+            return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('parsed request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         args = endpoint.process_request(req_args)
@@ -125,7 +125,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
diff --git a/edu_federation/openid_provider/views.py b/edu_federation/openid_provider/views.py
index f025247..641e039 100644
--- a/edu_federation/openid_provider/views.py
+++ b/edu_federation/openid_provider/views.py
@@ -132,7 +132,7 @@ def verify(authn_method):
     args = endpoint.authz_part2(request=authz_request, session_id=_session_id)
 
     if isinstance(args, ResponseMessage) and 'error' in args:
-        return make_response(args.to_json(), 400)
+        return make_response(args.to_json(), 400, {'Content-Type': 'application/json'})
 
     return do_response(endpoint, request, **args)
 
@@ -228,13 +228,13 @@ def service_endpoint(endpoint):
             return make_response(json.dumps({
                 'error': 'unauthorized_client',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
         except Exception as err:
             _log.error(err)
             return make_response(json.dumps({
                 'error': 'invalid_request',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
     else:
         if request.data:
             if isinstance(request.data, str):
@@ -248,11 +248,11 @@ def service_endpoint(endpoint):
         except Exception as err:
             _log.error(err)
             err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-            return make_response(err_msg.to_json(), 400)
+            return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         if isinstance(endpoint, Token):
@@ -263,7 +263,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
diff --git a/edu_federation/trust_anchor/views.py b/edu_federation/trust_anchor/views.py
index d312b8e..a8c0c26 100644
--- a/edu_federation/trust_anchor/views.py
+++ b/edu_federation/trust_anchor/views.py
@@ -89,13 +89,13 @@ def service_endpoint(endpoint):
             return make_response(json.dumps({
                 'error': 'unauthorized_client',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
         except Exception as err:
             _log.error(err)
             return make_response(json.dumps({
                 'error': 'invalid_request',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
     else:
         if request.data:
             if isinstance(request.data, str):
@@ -109,11 +109,11 @@ def service_endpoint(endpoint):
         except Exception as err:
             _log.error(err)
             err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-            return make_response(err_msg.to_json(), 400)
+            return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         args = endpoint.process_request(req_args)
@@ -121,7 +121,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
diff --git a/edu_federation/trust_mark_issuer/views.py b/edu_federation/trust_mark_issuer/views.py
index ff0aaaf..0d9129e 100644
--- a/edu_federation/trust_mark_issuer/views.py
+++ b/edu_federation/trust_mark_issuer/views.py
@@ -97,15 +97,15 @@ def service_endpoint(endpoint):
         return make_response(json.dumps({
             'error': 'unauthorized_client',
             'error_description': str(err)
-        }), 400)
+        }), 400, {'Content-Type': 'application/json'})
     except Exception as err:
         _log.error(err)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         args = endpoint.process_request(req_args)
@@ -113,7 +113,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
diff --git a/setup_federation/pid_issuer/views.py b/setup_federation/pid_issuer/views.py
index 255bf4a..904748e 100644
--- a/setup_federation/pid_issuer/views.py
+++ b/setup_federation/pid_issuer/views.py
@@ -102,13 +102,13 @@ def service_endpoint(endpoint):
             return make_response(json.dumps({
                 'error': 'unauthorized_client',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
         except Exception as err:
             _log.error(err)
             return make_response(json.dumps({
                 'error': 'invalid_request',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
     else:
         if request.data:
             if isinstance(request.data, str):
@@ -122,11 +122,11 @@ def service_endpoint(endpoint):
         except Exception as err:
             _log.error(err)
             err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-            return make_response(err_msg.to_json(), 400)
+            return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('parsed request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         args = endpoint.process_request(req_args)
@@ -134,7 +134,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
diff --git a/setup_federation/query_server/views.py b/setup_federation/query_server/views.py
index 1e90d95..479fb0c 100644
--- a/setup_federation/query_server/views.py
+++ b/setup_federation/query_server/views.py
@@ -88,13 +88,13 @@ def service_endpoint(endpoint):
             return make_response(json.dumps({
                 'error': 'unauthorized_client',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
         except Exception as err:
             _log.error(err)
             return make_response(json.dumps({
                 'error': 'invalid_request',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
     else:
         if request.data:
             if isinstance(request.data, str):
@@ -108,11 +108,11 @@ def service_endpoint(endpoint):
         except Exception as err:
             _log.error(err)
             err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-            return make_response(err_msg.to_json(), 400)
+            return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         args = endpoint.process_request(req_args)
@@ -120,7 +120,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
diff --git a/setup_federation/trust_anchor/views.py b/setup_federation/trust_anchor/views.py
index ccc550c..a8b1e67 100644
--- a/setup_federation/trust_anchor/views.py
+++ b/setup_federation/trust_anchor/views.py
@@ -88,13 +88,13 @@ def service_endpoint(endpoint):
             return make_response(json.dumps({
                 'error': 'unauthorized_client',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
         except Exception as err:
             _log.error(err)
             return make_response(json.dumps({
                 'error': 'invalid_request',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
     else:
         if request.data:
             if isinstance(request.data, str):
@@ -108,11 +108,11 @@ def service_endpoint(endpoint):
         except Exception as err:
             _log.error(err)
             err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-            return make_response(err_msg.to_json(), 400)
+            return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         args = endpoint.process_request(req_args)
@@ -120,7 +120,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
diff --git a/setup_federation/trust_mark_issuer/views.py b/setup_federation/trust_mark_issuer/views.py
index 4bc11fd..22d5bb8 100644
--- a/setup_federation/trust_mark_issuer/views.py
+++ b/setup_federation/trust_mark_issuer/views.py
@@ -97,15 +97,15 @@ def service_endpoint(endpoint):
         return make_response(json.dumps({
             'error': 'unauthorized_client',
             'error_description': str(err)
-        }), 400)
+        }), 400, {'Content-Type': 'application/json'})
     except Exception as err:
         _log.error(err)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         args = endpoint.process_request(req_args)
@@ -113,7 +113,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
diff --git a/setup_federation/wallet_provider/views.py b/setup_federation/wallet_provider/views.py
index 7c00d77..10d4f37 100644
--- a/setup_federation/wallet_provider/views.py
+++ b/setup_federation/wallet_provider/views.py
@@ -93,13 +93,13 @@ def service_endpoint(endpoint):
             return make_response(json.dumps({
                 'error': 'unauthorized_client',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
         except Exception as err:
             _log.error(err)
             return make_response(json.dumps({
                 'error': 'invalid_request',
                 'error_description': str(err)
-            }), 400)
+            }), 400, {'Content-Type': 'application/json'})
     else:
         if request.data:
             if isinstance(request.data, str):
@@ -113,11 +113,11 @@ def service_endpoint(endpoint):
         except Exception as err:
             _log.error(err)
             err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-            return make_response(err_msg.to_json(), 400)
+            return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('parsed request: {}'.format(req_args))
     if isinstance(req_args, ResponseMessage) and 'error' in req_args:
-        return make_response(req_args.to_json(), 400)
+        return make_response(req_args.to_json(), 400, {'Content-Type': 'application/json'})
 
     try:
         args = endpoint.process_request(req_args)
@@ -125,7 +125,7 @@ def service_endpoint(endpoint):
         message = traceback.format_exception(*sys.exc_info())
         _log.error(message)
         err_msg = ResponseMessage(error='invalid_request', error_description=str(err))
-        return make_response(err_msg.to_json(), 400)
+        return make_response(err_msg.to_json(), 400, {'Content-Type': 'application/json'})
 
     _log.info('Response args: {}'.format(args))
 
-- 
2.43.0


From 3b542c74485c8270176c4559f9f690ffdb7906c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:55 +0000
Subject: [PATCH 85/90] fix: trust marks were served as HTML, which clients do
 not take

---
 edu_federation/trust_mark_issuer/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edu_federation/trust_mark_issuer/views.py b/edu_federation/trust_mark_issuer/views.py
index 0d9129e..22d5bb8 100644
--- a/edu_federation/trust_mark_issuer/views.py
+++ b/edu_federation/trust_mark_issuer/views.py
@@ -121,7 +121,7 @@ def service_endpoint(endpoint):
         return redirect(args['redirect_location'])
     if 'http_response' in args:
         resp = make_response(args['http_response'], 200)
-        #resp.headers['content-type'] = endpoint.response_content_type
+        resp.headers['Content-Type'] = endpoint.response_content_type
         return resp
 
     response = do_response(endpoint, req_args, **args)
-- 
2.43.0


From 9883a8564565e456088fe02620f6a28e27f18718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:13 +0000
Subject: [PATCH 86/90] fix: the status of a trust mark was not asked for at
 the given endpoint

---
 src/fedservice/entity/client/trust_mark_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/client/trust_mark_status.py b/src/fedservice/entity/client/trust_mark_status.py
index 39d6ddb..1bfb3b3 100644
--- a/src/fedservice/entity/client/trust_mark_status.py
+++ b/src/fedservice/entity/client/trust_mark_status.py
@@ -55,7 +55,7 @@ class TrustMarkStatus(FederationService):
             _q_args = {'trust_mark': request_args["trust_mark"]}
             _jws = factory(request_args["trust_mark"])
             tm_payload = _jws.jwt.payload()
-            fetch_endpoint = tm_payload['iss']
+            fetch_endpoint = fetch_endpoint or kwargs.get("endpoint") or tm_payload['iss']
         else:
             _q_args = {k: v for k, v in request_args.items() if k in ['sub', 'trust_mark_id', 'iat']}
             if not fetch_endpoint:
-- 
2.43.0


From 45577132dc0d30460414dcb25f8e4d3a59d78b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:13 +0000
Subject: [PATCH 87/90] fix: the subject was left out when asking who has a
 trust mark

---
 src/fedservice/entity/client/trust_mark_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/client/trust_mark_list.py b/src/fedservice/entity/client/trust_mark_list.py
index 7317505..101e06c 100644
--- a/src/fedservice/entity/client/trust_mark_list.py
+++ b/src/fedservice/entity/client/trust_mark_list.py
@@ -51,7 +51,7 @@ class TrustMarkList(FederationService):
         if not method:
             method = self.http_method
 
-        _q_args = {k: v for k, v in request_args.items() if k in ['trust_mark_id']}
+        _q_args = {k: v for k, v in request_args.items() if k in ['sub', 'trust_mark_id']}
         if not fetch_endpoint:
             fetch_endpoint = kwargs.get("endpoint")
             if not fetch_endpoint:
-- 
2.43.0


From 0cc751542bac6343f4af0327329652de48f35ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:21 +0000
Subject: [PATCH 88/90] fix: plain request from an OAuth2 client that got a new
 identifier

---
 src/fedservice/appserver/oauth2/authorization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 0cd2383..b2557f7 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -122,7 +122,9 @@ class Authorization(authorization.Authorization):
                     logger.debug('Automatic registration done')
                     if registered_client_id != _cid:
                         request["client_id"] = registered_client_id
-                        kwargs["also_known_as"] = {_cid: registered_client_id}
+                        # The request names either of them
+                        kwargs["also_known_as"] = {_cid: registered_client_id,
+                                                   registered_client_id: registered_client_id}
                         client_info = _context.cdb[registered_client_id]
                         _context.cdb[_cid] = client_info
                         client_info['entity_id'] = _cid
-- 
2.43.0


From b2ed6c5306702a85b55612b7343ad752e727c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:51 +0000
Subject: [PATCH 89/90] fix: the OpenID provider failed when asked for its keys

---
 edu_federation/openid_provider/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edu_federation/openid_provider/views.py b/edu_federation/openid_provider/views.py
index 641e039..258762c 100644
--- a/edu_federation/openid_provider/views.py
+++ b/edu_federation/openid_provider/views.py
@@ -54,7 +54,7 @@ def keys(use):
     for typ in ["openid_provider", "federation_entity"]:
         if use == typ:
             _ent_type = current_app.server[typ]
-            return _ent_type.context.keyjar.export_jwks_as_json()
+            return _ent_type.keyjar.export_jwks_as_json()
 
     return "Asking for something I do not have", 400
 
-- 
2.43.0


From ea7be575f52eac85de2d32958d0d2388481555a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:51 +0000
Subject: [PATCH 90/90] fix: a failed login, or one that was not asked for,
 made the provider fail

A wrong password ended in a missing template, as did parameters that
were left out, and a token signed by someone else was acted upon.
---
 edu_federation/openid_provider/views.py | 30 ++++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/edu_federation/openid_provider/views.py b/edu_federation/openid_provider/views.py
index 258762c..8a18bcb 100644
--- a/edu_federation/openid_provider/views.py
+++ b/edu_federation/openid_provider/views.py
@@ -118,12 +118,26 @@ def verify(authn_method):
     """
 
     kwargs = dict([(k, v) for k, v in request.form.items()])
-    username = authn_method.verify(**kwargs)
+    for param in ['username', 'password', 'token']:
+        if param not in kwargs:
+            return make_response(f'Missing {param}', 400)
+
+    try:
+        username = authn_method.verify(**kwargs)
+    except FailedAuthentication:
+        username = None
     if not username:
         return make_response('Authentication failed', 403)
 
-    auth_args = authn_method.unpack_token(kwargs['token'])
-    authz_request = AuthorizationRequest().from_urlencoded(auth_args['query'])
+    # Only this provider decides what the user is asked to log in for
+    try:
+        auth_args = authn_method.unpack_token(kwargs['token'])
+        if auth_args['iss'] != current_app.server["openid_provider"].context.issuer:
+            raise ValueError('Not issued by this provider')
+        authz_request = AuthorizationRequest().from_urlencoded(auth_args['query'])
+    except Exception as err:
+        current_app.logger.error(f'Not a login that was asked for: {err}')
+        return make_response('Not a login that was asked for', 400)
 
     endpoint = current_app.server["openid_provider"].get_endpoint('authorization')
     _session_id = endpoint.create_session(authz_request, username, auth_args['authn_class_ref'],
@@ -140,19 +154,13 @@ def verify(authn_method):
 @entity.route('/verify/user', methods=['GET', 'POST'])
 def verify_user():
     authn_method = current_app.server["openid_provider"].context.authn_broker.get_method_by_id('user')
-    try:
-        return verify(authn_method)
-    except FailedAuthentication as exc:
-        return render_template("error.html", title=str(exc))
+    return verify(authn_method)
 
 
 @entity.route('/verify/user_pass_jinja', methods=['GET', 'POST'])
 def verify_user_pass_jinja():
     authn_method = current_app.server["openid_provider"].context.authn_broker.get_method_by_id('user')
-    try:
-        return verify(authn_method)
-    except FailedAuthentication as exc:
-        return render_template("error.html", title=str(exc))
+    return verify(authn_method)
 
 
 @entity.route('/.well-known/<service>')
-- 
2.43.0

