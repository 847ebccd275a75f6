-------------------------------- MODULE Resolve --------------------------------
(* What a resolver may answer. A document is                                  *)
(*   [iss, sub, signer, jwks, exp, md, add]                                   *)
(* md: set of [t, v]: metadata the subject states (entity type, value); add:  *)
(* set of [t, v]: what the issuer's policy adds for that type. An answer      *)
(* holds documents from the subject's configuration up to the statement by    *)
(* the trust anchor.                                                          *)
EXTENDS Integers, Sequences, FiniteSets
Range(q) == {q[i] : i \in DOMAIN q}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Types(s) == {x.t : x \in s}

\* an unbroken, valid chain from the anchor, that has the keys akeys, down to sub
Proves(docs, sub, anchor, akeys, now) ==
    /\ docs # <<>>
    /\ docs[1].iss = sub /\ docs[1].sub = sub
    /\ docs[Len(docs)].iss = anchor /\ docs[Len(docs)].signer \in akeys
    /\ \A i \in 1..Len(docs) : now <= docs[i].exp
    /\ \A i \in 1..Len(docs) - 1 : docs[i + 1].sub = docs[i].iss /\ docs[i].signer \in docs[i + 1].jwks
    /\ \A i \in 2..Len(docs) : docs[i].iss # docs[i].sub
Resolved(docs) ==
    LET own == docs[1].md IN
    own \cup UNION {{a \in docs[i].add : a.t \in Types(own)} : i \in 2..Len(docs)}
OnlyType(md, t) == IF t = "" THEN md ELSE {m \in md : m.t = t}
MinExp(docs) == Min({docs[i].exp : i \in 1..Len(docs)})
=============================================================================
