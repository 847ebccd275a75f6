--------------------------------- MODULE World ---------------------------------
(* The simulated federation as it is.                                                    *)
(* ents: sequence of [id, signer, hints, types]; edges: sequence of [sup, sub, keys]     *)
EXTENDS Naturals, Sequences
LOCAL Ran(q) == {q[i] : i \in DOMAIN q}
Ent(w, e) == CHOOSE x \in Ran(w.ents) : x.id = e
Exists(w, e) == \E x \in Ran(w.ents) : x.id = e
\* sup says something about sub, and with it the key that sub signs with
Vouched(w, sup, sub) == Exists(w, sup) /\ sup \in Ran(Ent(w, sub).hints)
                        /\ \E x \in Ran(w.edges) : x.sup = sup /\ x.sub = sub /\ Ent(w, sub).signer \in Ran(x.keys)
RECURSIVE Chains(_, _, _)
Chains(w, a, e) == e # a /\ \E sup \in Ran(Ent(w, e).hints) : Vouched(w, sup, e) /\ (sup = a \/ Chains(w, a, sup))
RECURSIVE Above(_, _)
Above(w, e) == {e} \cup (IF Exists(w, e) THEN UNION {Above(w, sup) : sup \in Ran(Ent(w, e).hints)} ELSE {})
\* Everything above e is as it should be
Sound(w, e) == \A x \in Above(w, e) : Exists(w, x) /\ \A sup \in Ran(Ent(w, x).hints) : Vouched(w, sup, x)
=============================================================================
