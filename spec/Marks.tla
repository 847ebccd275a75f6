--------------------------------- MODULE Marks ---------------------------------
(* A trust mark issuer: what it has issued and what it says about it.        *)
(* issued: a sequence of [id, sub, iat, exp], exp = -1 if there is none.     *)
EXTENDS Integers, Sequences, FiniteSets

Range(q) == {q[i] : i \in DOMAIN q}
NoExp == -1
Valid(m, now) == m.exp = NoExp \/ now <= m.exp
\* iat = -1: at any time
Match(m, id, sub, iat) == m.id = id /\ m.sub = sub /\ (iat = -1 \/ m.iat = iat)

Active(issued, now, id, sub, iat) == \E m \in Range(issued) : Match(m, id, sub, iat) /\ Valid(m, now)
Holders(issued, now, id) == {m.sub : m \in {x \in Range(issued) : x.id = id /\ Valid(x, now)}}
\* the trust mark that is issued; lives: [id -> life time or NoExp]
Mark(lives, id, sub, now) ==
    [id |-> id, sub |-> sub, iat |-> now, exp |-> IF lives[id] = NoExp THEN NoExp ELSE now + lives[id]]
=============================================================================
