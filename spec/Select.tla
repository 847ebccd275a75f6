--------------------------------- MODULE Select ---------------------------------
(* Which of the verified trust chains of an entity is used, and for how long they are kept. *)
(* A chain: [id, anchor, sub, len, exp]                                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Range(q) == {q[i] : i \in DOMAIN q}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* The place of an anchor among the prioritized, after all of them if it isn't there
Rank(prio, a) == IF a \in Range(prio) THEN Min({i \in DOMAIN prio : prio[i] = a}) ELSE Len(prio) + 1
\* The acceptable choices out of a set of chains
Best(prio, cs) == {c \in cs : \A d \in cs : Rank(prio, c.anchor) <= Rank(prio, d.anchor)}
\* saved: set of [sub, anchor, c]. One chain for every subject and anchor.
Of(saved, sub) == {x \in saved : x.sub = sub}
At(saved, sub, a) == {x \in saved : x.sub = sub /\ x.anchor = a}
Shortest(cs, a) == {c \in cs : c.anchor = a /\ \A d \in cs : d.anchor = a => c.len <= d.len}
\* All possible results of saving the chains cs of one subject
Pairs(S) == {<<x.sub, x.anchor>> : x \in S}
SavedOk(saved, cs, new) ==
    /\ \A x, y \in new : x.sub = y.sub /\ x.anchor = y.anchor => x = y
    /\ \A c \in cs : \E x \in At(new, c.sub, c.anchor) : x.c \in Shortest(cs, c.anchor)
    /\ \A x \in saved \cup new : <<x.sub, x.anchor>> \notin {<<c.sub, c.anchor>> : c \in cs} => x \in saved /\ x \in new
\* kept: set of chains of an entity; only those that are still valid are used
Usable(cs, now) == {c \in cs : c.exp >= now}
=============================================================================
