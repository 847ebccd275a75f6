-------------------------------- MODULE Register --------------------------------
(* Clients of an OpenID provider or an authorization server in a federation.                  *)
(* A world: ents: sequence of [id, signer, hints]; edges: sequence of [sup, sub, keys, add,   *)
(* dead] (of an entity or an edge there may be several versions, over time), where add is      *)
(* what the policy adds: sequence of [t, v]; known: the anchors.                              *)
(* A request: [iss, sub, signer, jwks, hints, types, own, exp, uris, tampered]: a             *)
(* configuration of the entity, own: set of [t, v]                                            *)
EXTENDS Integers, Sequences, FiniteSets
Range(q) == {q[i] : i \in DOMAIN q}
Types(s) == {x.t : x \in s}
EntsOf(w, e) == {x \in Range(w.ents) : x.id = e}
\* edges over which sup vouches for signer as a key of sub
EdgesOf(w, sub, signer) == {x \in Range(w.edges) : x.sub = sub /\ ~x.dead /\ signer \in Range(x.keys) /\ EntsOf(w, x.sup) # {}}
RECURSIVE Grants(_, _, _, _, _, _)
\* all that can be granted to sub, which signs with signer and points at hints
Grants(w, sub, signer, hints, add, seen) ==
    UNION {LET more == add \cup Range(x.add) IN
           (IF x.sup \in Range(w.known) THEN {[anchor |-> x.sup, add |-> more]} ELSE {})
           \cup UNION {Grants(w, sup.id, sup.signer, Range(sup.hints), more, seen \cup {sup.id}) : sup \in EntsOf(w, x.sup)}
           : x \in {y \in EdgesOf(w, sub, signer) : y.sup \in hints /\ y.sup \notin seen}}
Granted(w, r) == Grants(w, r.sub, r.signer, Range(r.hints), {}, {})
Acceptable(r, now) == r.iss = r.sub /\ r.signer \in Range(r.jwks) /\ ~r.tampered /\ r.exp >= now
\* the metadata of the type that the grant gives: its policies applied to what the entity says itself
Metadata(r, g, type) == {x \in Range(r.own) \cup g.add : x.t = type /\ type \in Range(r.types)}
Rank(prio, a) == IF \E i \in DOMAIN prio : prio[i] = a THEN CHOOSE i \in DOMAIN prio : prio[i] = a ELSE Len(prio) + 1
Best(prio, gs) == {g \in gs : \A h \in gs : Rank(prio, g.anchor) <= Rank(prio, h.anchor)}
\* everything above is as it should be: an entity that signs with signer and points at hints
RECURSIVE AllSound(_, _, _, _, _)
AllSound(w, sub, signer, hints, n) ==
    \A h \in hints : /\ EntsOf(w, h) # {} /\ n > 0
                     /\ \E x \in EdgesOf(w, sub, signer) : x.sup = h
                     /\ LET s == CHOOSE y \in EntsOf(w, h) : TRUE IN AllSound(w, h, s.signer, Range(s.hints), n - 1)
=============================================================================
