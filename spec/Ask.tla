---------------------------------- MODULE Ask ----------------------------------
(* An entity asks others: for their entity configuration, for a statement about someone, for a  *)
(* resolved entity, for a list of subordinates. What is accepted as an answer, what of it is    *)
(* remembered and where the next question goes.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
Delta == 600   \* What is remembered is used until this long before it expires
NoDoc == [n |-> 0]
\* A reply: status, form (signed, tampered, none = alg none, plain = not a JWT, ...), signer, iss, sub, iat, exp
Genuine(r, known) == r.form = "signed" /\ r.signer \in known[r.iss]
\* A reply that may be accepted as what asked says about about
Accept(r, asked, about, now, known) ==
    /\ r.status = 200 /\ r.iss = asked /\ r.sub = about
    /\ Genuine(r, known)
    /\ r.iat <= now /\ now <= r.exp
\* A reply that must be accepted. What a signature without key ID is worth is left open, so is what the 15 s are that
\* the library gives late receivers
MustAccept(r, asked, about, now, known) == Accept(r, asked, about, now, known) /\ now < r.exp /\ r.ctype = "" /\ r.kid
Fresh(d, now) == d.n # 0 /\ now < d.exp - Delta
\* The questions that are put to asked before the actual one, given what is remembered
First(kind, d, now) == IF kind = "list" \/ (kind = "statement" /\ ~Fresh(d, now)) THEN {"ec"} ELSE {}
\* What is remembered after an accepted entity configuration
Remember(cache, r) == [cache EXCEPT ![r.iss] = r]
=============================================================================
