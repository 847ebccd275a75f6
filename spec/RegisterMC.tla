------------------------------- MODULE RegisterMC -------------------------------
(* A provider, anchors t and u (u not known to it) and an intermediate m in all their shapes,  *)
(* and requests by a and by someone else that pretends to be a                                 *)
EXTENDS Register, TLC, Json
CONSTANTS MaxReqs
VARIABLES w, clients, log, now
vars == <<w, clients, log, now>>
E(id, hints) == [id |-> id, signer |-> id \o "1", hints |-> hints]
X(sup, sub, keys, v) == [sup |-> sup, sub |-> sub, keys |-> keys, add |-> <<[t |-> "rp", v |-> v]>>, dead |-> FALSE]
Ents == <<E("t", <<>>), E("u", <<>>), E("m", <<"t", "u">>)>>
Opt(x) == {<<>>, <<x>>, <<[x EXCEPT !.keys = <<"z1">>]>>, <<[x EXCEPT !.dead = TRUE]>>}
Worlds == {[ents |-> Ents, known |-> k, edges |-> tm \o um \o ma \o ta] :
            k \in {<<"t">>, <<"t", "u">>}, tm \in Opt(X("t", "m", <<"m1">>, "tm")), um \in Opt(X("u", "m", <<"m1">>, "um")),
            ma \in Opt(X("m", "a", <<"a1">>, "ma")), ta \in Opt(X("t", "a", <<"a1">>, "ta"))}
Reqs == {[iss |-> i, sub |-> "a", signer |-> k, jwks |-> j, hints |-> h, types |-> <<"rp">>, own |-> <<[t |-> "rp", v |-> "own"]>>,
          exp |-> 1, uris |-> TRUE, tampered |-> FALSE] :
          i \in {"a", "x"}, k \in {"a1", "z1"}, j \in {<<"a1">>, <<"z1">>, <<"a1", "z1">>}, h \in {<<"m">>, <<"m", "t">>, <<"t">>}}
Init == w \in Worlds /\ clients = {} /\ log = {} /\ now = 0
Ask(r) == IF Acceptable(r, now) /\ Granted(w, r) # {}
          THEN \E g \in Best(<<"u", "t">>, Granted(w, r)) :
                 clients' = {c \in clients : c.id # r.sub} \cup {[id |-> r.sub, md |-> Metadata(r, g, "rp"), anchor |-> g.anchor, r |-> r]}
          ELSE UNCHANGED clients
Tick == now < 2 /\ now' = now + 1 /\ UNCHANGED <<w, clients, log>>
Next == Tick \/ \E r \in Reqs : Cardinality(log) < MaxReqs /\ Ask(r) /\ log' = log \cup {r} /\ UNCHANGED <<w, now>>
Spec == Init /\ [][Next]_vars
\* Nobody gets in without the key that someone vouched for, or by an anchor that is not known
Genuine == \A c \in clients : c.r.iss = "a" /\ c.r.signer \in Range(c.r.jwks) /\ c.anchor \in Range(w.known)
                              /\ \E x \in Range(w.edges) : x.sub = "a" /\ c.r.signer \in Range(x.keys) /\ ~x.dead
\* The policies of the anchor are always applied
Governed == \A c \in clients : /\ [t |-> "rp", v |-> "own"] \in c.md
                               /\ c.anchor = "t" => {[t |-> "rp", v |-> "tm"], [t |-> "rp", v |-> "ta"]} \cap c.md # {}
                               /\ c.anchor = "u" => {[t |-> "rp", v |-> "um"], [t |-> "rp", v |-> "ma"]} \subseteq c.md
\* Sound surroundings always give something
Available == \A r \in Reqs : AllSound(w, r.sub, r.signer, Range(r.hints), 5) => Granted(w, r) # {}
=============================================================================
