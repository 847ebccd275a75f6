------------------------------- MODULE TrustMark -------------------------------
(* Who may issue a trust mark, and when a verifier may accept one.           *)
(* A federation w:                                                           *)
(*   known  - the trust anchors the verifier knows                           *)
(*   edges  - {[sup, sub, keys]}: sup states that sub has these keys         *)
(*   ents   - {[id, keys, hints]}: what an entity states about itself        *)
(*   fake   - the anchors whose configuration somebody else publishes        *)
(*   owners - {[anchor, id, sub, keys]} and issuers - {[anchor, id]}: what   *)
(*            the anchors state about trust marks                            *)
(* A mark:  [iss, sub, id, iat, exp, by, deleg]                              *)
(*   exp = -1: none; by: the key that made the signature, "" if there is no  *)
(*   proper signature; a claim that is missing is ""; deleg: a sequence of   *)
(*   at most one [iss, sub, id, exp, by]                                     *)
EXTENDS Integers, Sequences, FiniteSets

Range(q) == {q[i] : i \in DOMAIN q}
NoExp == -1
Alive(x, now) == x.exp = NoExp \/ now <= x.exp

Ent(w, e) == CHOOSE x \in w.ents : x.id = e
Exists(w, e) == \E x \in w.ents : x.id = e
\* A superior that can vouch for e: e names it, it states keys for e and its own configuration
\* shows those that count when e signs: some key of e's configuration must be vouched for.
Vouched(w, sup, sub) ==
    /\ Exists(w, sup) /\ Exists(w, sub)
    /\ sup \in Ent(w, sub).hints
    /\ \E x \in w.edges : x.sup = sup /\ x.sub = sub /\ Ent(w, sub).signer \in x.keys
Claimed(w, sup, sub) == Exists(w, sub) /\ sup \in Ent(w, sub).hints

RECURSIVE Chains(_, _, _)
\* is there a path of good statements from the anchor down to e
Chains(w, anchor, e) ==
    \/ e = anchor /\ Exists(w, e)
    \/ \E sup \in {x.id : x \in w.ents} : Vouched(w, sup, e) /\ Chains(w, anchor, sup)
Trusted(w, anchor, e) == anchor \in w.known /\ Chains(w, anchor, e)

RECURSIVE Above(_, _)
Above(w, e) == {e} \cup (IF Exists(w, e) THEN UNION {Above(w, sup) : sup \in Ent(w, e).hints} ELSE {})
\* Everything that is stated above e is in order
Sound(w, e) == \A x \in Above(w, e) : Exists(w, x) /\ \A sup \in Ent(w, x).hints : Vouched(w, sup, x)

Owners(w, anchor, id) == {o \in w.owners : o.anchor = anchor /\ o.id = id}
Delegated(w, m, anchor, now) ==
    LET d == m.deleg[1] IN
    /\ \E i \in w.issuers : i.anchor = anchor /\ i.id = m.id
    /\ \E o \in Owners(w, anchor, m.id) : d.iss = o.sub /\ d.by \in o.keys
    /\ d.sub = m.iss /\ d.id = m.id /\ Alive(d, now)

Complete(m) == m.iss # "" /\ m.sub # "" /\ m.id # "" /\ m.iat # -1
Accept(w, m, anchor, eid, now) ==
    /\ Complete(m)
    /\ eid # "" => m.sub = eid
    /\ Alive(m, now)
    /\ m.deleg # <<>> => anchor \in w.known \ w.fake /\ Exists(w, anchor) /\ Delegated(w, m, anchor, now)
    /\ Trusted(w, anchor, m.iss)
    /\ m.by \in Ent(w, m.iss).keys
=============================================================================
