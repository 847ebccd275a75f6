---------------------------------- MODULE Gate ----------------------------------
(* An OpenID provider in a federation, seen from the web: clients get in by being vouched for, *)
(* users log in at the provider, clients get a code for the user, exchange it for tokens and   *)
(* fetch the claims of the user.                                                               *)
EXTENDS Integers, Sequences, FiniteSets
Range(q) == {q[i] : i \in DOMAIN q}
CodeLife == 120
TokenLife == 3600
\* A client: id, uris (redirect URIs it has), only (those its superior allows, all if none are listed), app (its keys),
\* vouched (by a superior), pair (wants subject identifiers of its own), alg (its ID tokens)
Allowed(c) == IF c.only = <<>> THEN Range(c.uris) ELSE Range(c.uris) \cap Range(c.only)
\* Is a client that has not registered taken in
Welcome(c, auto) == auto /\ c.vouched
Known(c, reg, auto) == reg[c.id] = "explicit" \/ Welcome(c, auto)
\* An authorization request is followed by a page to log in at, only if
\* it comes from a client, for what the client has registered for
AuthzOk(c, q, reg, auto) ==
    /\ Known(c, reg, auto)
    /\ q.of = c.id /\ q.uri \in Allowed(c)
    /\ q.rtype = "code"
    /\ q.signer = "" \/ q.signer \in Range(c.app)
\* The page must be one that the provider has made, the password the one of the user
LoginOk(page, pages, right) == page \in 1..Len(pages) /\ right
\* A user that has logged in for a client need not do that again for a while, in the same browser, for that client
SignedIn == 3600
MaySkip(jar, cid, now) == jar # <<>> /\ jar[1].cid = cid /\ now <= jar[1].at + SignedIn
\* Whom a client at the token endpoint proves to be: with a key it has registered or a secret it has been given
Proves(c, reg, how, key, secretof) ==
    /\ reg[c.id] # "no"
    /\ \/ how = "key" /\ key \in Range(c.app)
       \/ how = "secret" /\ secretof = c.id /\ reg[c.id] = "explicit"
\* A code is exchanged once, soon enough, by the client that it was made for, which got it where it wanted it
CodeOk(code, cid, uri, now) == code.cid = cid /\ code.uri = uri /\ ~code.used /\ now <= code.at + CodeLife
TokenLives(tok, now) == now <= tok.at + TokenLife
\* The subject identifier depends on the user, and on the client if it wants one of its own
SubFits(x, y) == (x.n = y.n => x.user = y.user) /\ (x.user = y.user /\ x.pair = y.pair /\ (x.pair => x.cid = y.cid) => x.n = y.n)
OfScope == [openid |-> {}, offline_access |-> {}, email |-> {"email"}, profile |-> {"name"}, phone |-> {"phone_number"}]
Claims(scope) == UNION {OfScope[s] : s \in Range(scope)}
=============================================================================
