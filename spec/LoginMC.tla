--------------------------------- MODULE LoginMC ---------------------------------
(* A client a, a provider o that is below m or t, in all shapes, and an adversary, who brings  *)
(* any answer to the client that can be made of what o has stated about anyone at any time     *)
(* and what he can make himself. He also has a provider, x, that is in the federation.         *)
EXTENDS Login, TLC
CONSTANTS Deep
VARIABLES w, md, prov, keys, ss, done
vars == <<w, md, prov, keys, ss, done>>
E(id, hints) == [id |-> id, signer |-> id \o "1", keys |-> <<id \o "1">>, hints |-> hints]
X(sup, sub, v) == [sup |-> sup, sub |-> sub, keys |-> <<sub \o "1">>, add |-> <<[t |-> "op", v |-> v]>>, dead |-> FALSE]
Ents == <<E("t", <<>>), E("u", <<>>), E("m", <<"t", "u">>), E("o", <<"m", "u">>), E("x", <<"t">>)>>
Opt(x) == {<<>>, <<x>>, <<[x EXCEPT !.keys = <<"z1">>]>>, <<[x EXCEPT !.dead = TRUE]>>}
Worlds == {[ents |-> Ents, known |-> k, edges |-> tm \o um \o mo \o uo \o <<X("t", "x", "tx")>>] :
            k \in {<<"t">>, <<"t", "u">>}, tm \in Opt(X("t", "m", "tm")), um \in Opt(X("u", "m", "um")),
            mo \in Opt(X("m", "o", "mo")), uo \in Opt(X("u", "o", "uo"))}
Mds == {[type |-> ty, issuer |-> i, own |-> <<"own">>, jwks |-> <<"o2">>] : ty \in {"openid_provider", "oauth_authorization_server"}, i \in {"o", "x"}}
Prio == <<"u", "t">>
\* o lets u1 in for session 1 and u2 for session 2
User(k) == IF k = "1" THEN "u1" ELSE "u2"
NoTok == [none |-> TRUE]
Tok(i, s, a, n, k, l, z) == [none |-> FALSE, iss |-> i, sub |-> s, aud |-> a, nonce |-> n, signer |-> k, life |-> l, tampered |-> z]
Genuine(k) == Tok("o", User(k), <<"a">>, k, "o2", 1, FALSE)
\* what o has said: to others, about other users of a, without a nonce, long ago; what has been changed; what others say
Tokens == {Genuine("1"), Genuine("2"), Tok("o", "u3", <<"b">>, "1", "o2", 1, FALSE), Tok("o", "u3", <<"b">>, "x", "o2", 1, FALSE),
           Tok("o", "u3", <<"a">>, "x", "o2", 1, FALSE), Tok("o", "u3", <<"a">>, "none", "o2", 1, FALSE),
           Tok("o", "u1", <<"a">>, "1", "o2", -1, FALSE), Tok("o", "u3", <<"a">>, "1", "o2", 1, TRUE),
           Tok("x", "u3", <<"a">>, "1", "x1", 1, FALSE), Tok("o", "u3", <<"a">>, "1", "x1", 1, FALSE),
           Tok("o", "u3", <<"a">>, "2", "z1", 1, FALSE), Tok("o", "u3", <<"a">>, "2", "none", 1, FALSE)}
Honest(k) == [status |-> 200, shape |-> "ok", at |-> "at" \o k, expires |-> 1, idt |-> Genuine(k), plant |-> FALSE]
\* The endpoints of o: they give what belongs to the code that was brought, which can be one of someone else
Answers == {[state |-> s, iss |-> i, error |-> e, code |-> c, idt |-> t, token |-> k, info |-> [status |-> 200, sub |-> u]] :
             s \in {"1", "2", "9"}, i \in {"o", "x", ""}, e \in BOOLEAN, c \in BOOLEAN, t \in Tokens \cup {NoTok},
             k \in {Honest("1"), Honest("2"), [Honest("1") EXCEPT !.idt = Tok("o", "u3", <<"a">>, "x", "o2", 1, FALSE)],
                    [Honest("1") EXCEPT !.status = 400], [Honest("1") EXCEPT !.shape = "error"]},
             u \in {"u1", "u2", "u3"}}
Init == w \in Worlds /\ md \in Mds /\ prov = {} /\ keys = {} /\ ss = <<>> /\ done = {}
Grant == Best(Prio, GrantsOf(w, "o"))
Info == /\ prov = {} /\ IsProvider(md, "o")
        /\ \E g \in Grant : prov' = Stated(md, g)
        /\ keys' = Range(md.jwks) /\ UNCHANGED <<w, md, ss, done>>
Start(k, rt) == prov # {} /\ k \notin DOMAIN ss /\ (k = "2" => "1" \in DOMAIN ss) /\ ss' = (k :> rt) @@ ss /\ UNCHANGED <<w, md, prov, keys, done>>
Come(r) == /\ r.state \in DOMAIN ss /\ Acceptable2(r, ss[r.state], "a", "o", keys)
           /\ done' = done \cup {[k |-> r.state, sub |-> Subject(r, ss[r.state]), info |-> r.info.sub, iss |-> r.iss,
                                   life |-> IF Back(ss[r.state]) /\ ~r.token.idt.none THEN r.token.idt.life ELSE IF r.idt.none THEN 0 ELSE r.idt.life]}
           /\ UNCHANGED <<w, md, prov, keys, ss>>
Next == Info \/ (\E k \in {"1", "2"}, rt \in {"code", "id_token", "code id_token"} : Start(k, rt))
             \/ (Cardinality(done) < (IF Deep THEN 3 ELSE 1) /\ \E r \in Answers : Come(r))
Spec == Init /\ [][Next]_vars
\* The one that logs in is the one the provider let in, for that very session
TheUser == \A d \in done : d.sub = User(d.k) /\ (ss[d.k] # "id_token" => d.info = d.sub)
Current == \A d \in done : d.life >= 0
NoOther == \A d \in done : d.iss # "x"
\* Only by way of an anchor, and with its policies
Vouched == prov # {} => /\ GrantsOf(w, "o") # {} /\ md.issuer = "o"
                        /\ "own" \in prov /\ ("uo" \in prov \/ {"mo", "tm"} \subseteq prov \/ {"mo", "um"} \subseteq prov) /\ "tx" \notin prov
                        /\ (\E g \in GrantsOf(w, "o") : g.anchor = "u") => "tm" \notin prov
OwnKeys == keys \subseteq {"o2"}
\* The one who is let in gets in
Works == \A k \in DOMAIN ss : ss[k] # "code id_token" =>
    LET r == [state |-> k, iss |-> "o", error |-> FALSE, code |-> Back(ss[k]), idt |-> IF Front(ss[k]) THEN Genuine(k) ELSE NoTok,
              token |-> Honest(k), info |-> [status |-> 200, sub |-> User(k)]] IN
    Flawless(r, ss[k], "a", "o", keys) /\ Acceptable2(r, ss[k], "a", "o", keys)
=============================================================================
