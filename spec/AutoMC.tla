--------------------------------- MODULE AutoMC ---------------------------------
(* A provider that demands signed requests, the client a, the anchor t, an intermediate m, and  *)
(* someone else (key z1) who makes up chains and requests in a's name. b is registered.         *)
EXTENDS Auto, TLC
CONSTANTS MaxReqs
VARIABLES w, clients, acc, n, now
vars == <<w, clients, acc, n, now>>
E(id, hints) == [id |-> id, signer |-> id \o "1", hints |-> hints, own |-> <<>>, types |-> <<>>, uris |-> <<>>, app |-> <<>>]
Own(v) == <<[t |-> "rp", v |-> v]>>
A == [id |-> "a", signer |-> "a1", hints |-> <<"m", "t">>, own |-> Own("own"), types |-> <<"rp">>, uris |-> <<"ua">>, app |-> <<"pa">>]
X(sup, sub, keys, v) == [sup |-> sup, sub |-> sub, keys |-> keys, add |-> <<[t |-> "rp", v |-> v]>>, dead |-> FALSE]
Opt(x) == {<<>>, <<x>>, <<[x EXCEPT !.dead = TRUE]>>}
Worlds == {[ents |-> <<E("t", <<>>), E("m", <<"t">>), A>>, known |-> <<"t">>, edges |-> tm \o ma \o ta] :
            tm \in Opt(X("t", "m", <<"m1">>, "tm")), ma \in Opt(X("m", "a", <<"a1">>, "ma")), ta \in Opt(X("t", "a", <<"a1">>, "ta"))}
Anchors == <<[id |-> "t", keys |-> <<"t1">>]>>
S(iss, sub, signer, jwks, v, exp) == [iss |-> iss, sub |-> sub, signer |-> signer, jwks |-> jwks, add |-> <<[t |-> "rp", v |-> v]>>, exp |-> exp,
                                      tampered |-> FALSE, own |-> <<>>, types |-> <<>>, uris |-> <<>>, app |-> <<>>]
Leaf(signer, app, uri) == [iss |-> "a", sub |-> "a", signer |-> signer, jwks |-> <<signer>>, add |-> <<>>, exp |-> 1, tampered |-> FALSE,
                           own |-> Own("own"), types |-> <<"rp">>, uris |-> <<uri>>, app |-> <<app>>]
\* All statements that are around: what the superiors have said, and what the other one makes up
Pool == {Leaf("a1", "pa", "ua"), Leaf("z1", "pz", "uz"), S("m", "a", "m1", <<"a1">>, "ma", 1), S("t", "m", "t1", <<"m1">>, "tm", 1),
         S("t", "a", "t1", <<"a1">>, "ta", 0), S("m", "a", "z1", <<"z1">>, "za", 1), S("t", "a", "z1", <<"z1">>, "zt", 1),
         S("m", "z", "m1", <<"z1">>, "mz", 1)}
Chains == {<<>>} \cup [1..2 -> Pool] \cup [1..3 -> Pool]
B == [id |-> "b", md |-> {"own"}, uris |-> {"ub"}, app |-> {"pb"}, auto |-> FALSE]
Init == w \in Worlds /\ clients = {B} /\ acc = {} /\ n = 0 /\ now = 0
Ask(e, c, signer, uri) ==
    LET g == May(w, clients, e, c, Anchors, now, "rp", TRUE) IN
    \E after \in (IF g = {} THEN {clients}
                  ELSE {{x \in clients : x.id # e} \cup {[id |-> e, md |-> r.md, uris |-> r.uris, app |-> r.app, auto |-> TRUE]} : r \in g}) :
       /\ clients' = after
       /\ acc' = IF (Known(clients, e) \/ g # {}) /\ \E x \in after : x.id = e /\ signer \in x.app /\ uri \in x.uris
                 THEN acc \cup {[cid |-> e, signer |-> signer, uri |-> uri]} ELSE acc
Tick == now < 2 /\ now' = now + 1 /\ UNCHANGED <<w, clients, acc, n>>
Next == Tick \/ \E e \in {"a", "b", "z"}, c \in Chains, s \in {"pa", "pb", "pz"}, u \in {"ua", "ub", "uz"} :
                 n < MaxReqs /\ Ask(e, c, s, u) /\ n' = n + 1 /\ UNCHANGED <<w, now>>
Spec == Init /\ [][Next]_vars
\* Nobody gets a's, or b's, name without their keys, and codes only go to their addresses
Genuine == \A x \in acc : x \in {[cid |-> "a", signer |-> "pa", uri |-> "ua"], [cid |-> "b", signer |-> "pb", uri |-> "ub"]}
\* What has been registered otherwise stays as it is
Untouched == B \in clients
Governed == \A c \in clients \ {B} : c.id = "a" /\ "own" \in c.md /\ c.md \cap {"tm", "ta"} # {} /\ c.md \cap {"za", "zt", "mz"} = {}
\* Once in, failing attempts do not change anything
Stays == [][\A c \in clients : \E d \in clients' : d.id = c.id]_vars
=============================================================================
