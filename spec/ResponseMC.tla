------------------------------- MODULE ResponseMC -------------------------------
(* A client a below m, a provider o below m or t, and the anchors t and u in all their shapes. *)
(* Responses from o, and from someone else                                                     *)
EXTENDS Response, TLC
CONSTANTS MaxResps, Deep
VARIABLES w, adopted, n, now
vars == <<w, adopted, n, now>>
E(id, hints) == [id |-> id, signer |-> id \o "1", keys |-> <<id \o "1">>, hints |-> hints]
X(sup, sub, v) == [sup |-> sup, sub |-> sub, keys |-> <<sub \o "1">>, add |-> <<[t |-> "rp", v |-> v]>>, dead |-> FALSE]
Ents == <<E("t", <<>>), E("u", <<>>), E("m", <<"t", "u">>), E("a", <<"m", "t">>), E("o", <<"m", "u">>), E("x", <<"t">>)>>
Opt(x) == {<<>>, <<x>>, <<[x EXCEPT !.keys = <<"z1">>]>>}
More(x) == IF Deep THEN Opt(x) ELSE {<<>>, <<x>>}
Worlds == {[ents |-> Ents, known |-> k, edges |-> tm \o um \o ma \o ta \o mo \o uo] :
            k \in {<<"t">>, <<"t", "u">>}, tm \in More(X("t", "m", "tm")), um \in More(X("u", "m", "um")),
            ma \in Opt(X("m", "a", "ma")), ta \in More(X("t", "a", "ta")), mo \in Opt(X("m", "o", "mo")), uo \in More(X("u", "o", "uo"))}
Resps == {[iss |-> i, sub |-> s, signer |-> k, jwks |-> <<"o1", "z1">>, exp |-> 1, types |-> <<"rp">>,
           own |-> <<[t |-> "rp", v |-> "says"]>>, anchor |-> a, tampered |-> FALSE] :
          i \in {"o", "x"}, s \in {"a", "x"}, k \in {"o1", "z1"}, a \in {"t", "u", "m"}}
Init == w \in Worlds /\ adopted = {} /\ n = 0 /\ now = 0
Take(r) == IF Acceptance(w, r, "a", now)
           THEN \E g \in Mine(w, r, "a") : adopted' = {[md |-> Adopted(r, g, "rp", {}), r |-> r]}
           ELSE UNCHANGED adopted
Tick == now < 17 /\ now' = now + 1 /\ UNCHANGED <<w, adopted, n>>
Next == Tick \/ \E r \in Resps : n < MaxResps /\ Take(r) /\ n' = n + 1 /\ UNCHANGED <<w, now>>
Spec == Init /\ [][Next]_vars
Vouched(e, anchor) == \E g \in GrantsOf(w, e) : g.anchor = anchor
\* Nothing is adopted but from someone below an anchor I trust, that has said it about me, with its own key
Genuine == \A x \in adopted : x.r.iss = "o" /\ x.r.sub = "a" /\ x.r.signer = "o1" /\ x.r.anchor \in Range(w.known)
                              /\ Vouched("o", x.r.anchor) /\ Vouched("a", x.r.anchor)
\* The policies of my own superiors always hold
V(v) == [t |-> "rp", v |-> v]
Governed == \A x \in adopted : /\ V("says") \in x.md
                               /\ x.r.anchor = "t" => V("ta") \in x.md \/ {V("tm"), V("ma")} \subseteq x.md
                               /\ x.r.anchor = "u" => {V("um"), V("ma")} \subseteq x.md /\ V("tm") \notin x.md
\* When all is well and there is one way there is one result, hence both sides have the same
Agreement == \A a \in {"t", "u"} : Sound(w, "a") /\ Cardinality(PathsTo(w, "a", a)) = 1
                                   => Cardinality({g \in GrantsOf(w, "a") : g.anchor = a}) <= 1
=============================================================================
