-------------------------------- MODULE Response --------------------------------
(* A client that gets a registration response, see Register for the worlds.                   *)
(* Entities here also have keys. A response: [iss, sub, signer, jwks, exp, types, own,        *)
(* anchor, tampered]                                                                          *)
EXTENDS Register
Leeway == 15
Empty == [known |-> <<>>, ents |-> <<>>, edges |-> <<>>]
\* all ways the entity e, as it describes itself, can be given something
GrantsOf(w, e) == UNION {Grants(w, e, x.signer, Range(x.hints), {}, {e}) : x \in EntsOf(w, e)}
\* The issuer is trusted by way of the anchor it has chosen, and it has signed the response
Authentic(w, r) == /\ r.anchor \in Range(w.known)
                   /\ \E g \in GrantsOf(w, r.iss) : g.anchor = r.anchor
                   /\ \E x \in EntsOf(w, r.iss) : r.signer \in Range(x.keys)
Proper(r, me, now) == r.sub = me /\ r.signer \in Range(r.jwks) /\ ~r.tampered /\ r.exp + Leeway > now
\* What I have been given by way of the anchor the issuer has chosen
Mine(w, r, me) == {g \in GrantsOf(w, me) : g.anchor = r.anchor}
\* What is said in the response, or what I say if it doesn't say anything, and the policies of my superiors
Adopted(r, g, type, own) == IF type \in Range(r.types) THEN Metadata(r, g, type)
                            ELSE {x \in own \cup g.add : x.t = type}
Acceptance(w, r, me, now) == Proper(r, me, now) /\ Authentic(w, r) /\ Mine(w, r, me) # {}
\* the ways up from an entity, when all is as it should be
RECURSIVE Paths(_, _, _)
Paths(w, e, n) == IF n = 0 THEN {}
                  ELSE UNION {LET x == CHOOSE y \in EntsOf(w, e) : TRUE IN
                              IF x.hints = <<>> THEN {<<e>>}
                              ELSE UNION {{<<e>> \o p : p \in Paths(w, h, n - 1)} : h \in Range(x.hints)} : z \in EntsOf(w, e)}
PathsTo(w, e, anchor) == {p \in Paths(w, e, 7) : p[Len(p)] = anchor}
Sound(w, e) == \A x \in EntsOf(w, e) : x.hints # <<>> /\ AllSound(w, e, x.signer, Range(x.hints), 6)
=============================================================================
