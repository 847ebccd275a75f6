-------------------------------- MODULE GateMC --------------------------------
(* Two clients, some that is none, and users that share a browser; everyone tries everything   *)
EXTENDS Gate, TLC
CONSTANTS Users, MaxPages, MaxCodes, MaxNow, Auto, Step
Cl(i, v, only) == [id |-> i, uris |-> <<1, 2>>, only |-> only, app |-> <<i>>, vouched |-> v, pair |-> FALSE, alg |-> ""]
Clients == {Cl("a", TRUE, <<1>>), Cl("b", TRUE, <<>>), Cl("x", FALSE, <<>>)}
Ids == {c.id : c \in Clients}
Of(i) == CHOOSE c \in Clients : c.id = i
VARIABLES now, reg, pages, codes, toks, jar
vars == <<now, reg, pages, codes, toks, jar>>
Init == now = 0 /\ reg = [i \in Ids |-> "no"] /\ pages = <<>> /\ codes = <<>> /\ toks = {} /\ jar = <<>>
Register == \E c \in Clients : c.vouched /\ reg' = [reg EXCEPT ![c.id] = "explicit"] /\ UNCHANGED <<now, pages, codes, toks, jar>>
\* by: whose key the request is signed with
Ask == \E c \in Clients, of \in Ids, u \in {1, 2, 0}, by \in Ids \cup {""} :
    LET q == [cid |-> c.id, of |-> of, uri |-> u, rtype |-> "code", signer |-> by] IN
    /\ Len(pages) < MaxPages /\ AuthzOk(c, q, reg, Auto)
    /\ pages' = Append(pages, [cid |-> c.id, uri |-> <<of, u>>, by |-> by])
    /\ reg' = [reg EXCEPT ![c.id] = IF @ = "no" THEN "auto" ELSE @]
    /\ UNCHANGED <<now, codes, toks, jar>>
LogIn == \E p \in 0..Len(pages), u \in Users, right \in BOOLEAN :
    /\ Len(codes) < MaxCodes /\ LoginOk(p, pages, right)
    /\ codes' = Append(codes, [cid |-> pages[p].cid, uri |-> pages[p].uri, user |-> u, at |-> now, used |-> FALSE, right |-> right, p |-> p])
    /\ jar' = <<[cid |-> pages[p].cid, user |-> u, at |-> now]>>
    /\ UNCHANGED <<now, reg, pages, toks>>
\* The browser still knows who has logged in
Skip == \E c \in Clients, u \in {1, 2, 0}, by \in Ids \cup {""} :
    LET q == [cid |-> c.id, of |-> c.id, uri |-> u, rtype |-> "code", signer |-> by] IN
    /\ Len(codes) < MaxCodes /\ AuthzOk(c, q, reg, Auto) /\ MaySkip(jar, c.id, now)
    /\ codes' = Append(codes, [cid |-> c.id, uri |-> <<c.id, u>>, user |-> jar[1].user, at |-> now, used |-> FALSE, right |-> TRUE, p |-> 0])
    /\ UNCHANGED <<now, reg, pages, toks, jar>>
Exchange == \E n \in DOMAIN codes, c \in Clients, how \in {"key", "secret"}, w \in Ids, of \in Ids, u \in {1, 2, 0} :
    /\ Proves(c, reg, how, w, w) /\ CodeOk(codes[n], c.id, <<of, u>>, now)
    /\ codes' = [codes EXCEPT ![n].used = TRUE]
    /\ toks' = toks \cup {[cid |-> c.id, user |-> codes[n].user, at |-> now, of |-> n, with |-> w]}
    /\ UNCHANGED <<now, reg, pages, jar>>
Tick == now < MaxNow /\ now' = now + Step /\ UNCHANGED <<reg, pages, codes, toks, jar>>
Next == Register \/ Ask \/ LogIn \/ Skip \/ Exchange \/ Tick
Spec == Init /\ [][Next]_vars
\* What is handed out goes to those that are vouched for, for a user that has logged in, to where the superiors allow
OnlyVouched == \A t \in toks : Of(t.cid).vouched /\ t.with = t.cid
OnlyLoggedIn == \A t \in toks : codes[t.of].right /\ codes[t.of].user = t.user
OnlyToAllowed == \A c \in Range(codes) : c.uri[1] = c.cid /\ c.uri[2] \in Allowed(Of(c.cid))
\* A user that the browser is signed in as has logged in, for that client
OnlyWhoCame == \A c \in Range(codes) : \E d \in Range(codes) : d.p > 0 /\ d.user = c.user /\ d.cid = c.cid /\ d.right /\ d.at <= c.at
OnlySame == jar = <<>> \/ \E d \in Range(codes) : d.user = jar[1].user /\ d.cid = jar[1].cid
Once == \A s, t \in toks : s.of = t.of => s = t
InTime == \A t \in toks : t.at <= codes[t.of].at + CodeLife
NoStranger == reg["x"] = "no" /\ (~Auto => \A p \in Range(pages) : reg[p.cid] = "explicit")
=============================================================================
