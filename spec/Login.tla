---------------------------------- MODULE Login ----------------------------------
(* A client of a federation that lets its users log in at a provider of the federation.       *)
(* Worlds are as in Response, with md: what the provider states about itself as a provider:   *)
(* [type, issuer, own, types, authn, keys, jwks]                                              *)
(* A session: [rt, good, last, ats]                                                           *)
(* An answer: what a browser brings: [state, iss, error, code, idt], and what the provider's  *)
(* token and userinfo endpoints say: token: [status, shape, at, expires, idt], info: [status, sub] *)
(* An ID Token: [none, iss, sub, aud, life, nonce, signer, tampered]                          *)
EXTENDS Response
\* ---- The provider
IsProvider(md, op) == md.type = "openid_provider" /\ md.issuer = op
Stated(md, g) == Range(md.own) \cup {x.v : x \in {y \in g.add : y.t = "op"}}
\* ---- Authentication
Front(rt) == rt \in {"id_token", "code id_token"}
Back(rt) == rt \in {"code", "code id_token"}
GoodToken(d, me, op, k, keys) == /\ ~d.none /\ d.iss = op /\ me \in Range(d.aud) /\ d.nonce = k /\ d.signer \in keys
                                 /\ ~d.tampered /\ d.life >= 0
FromHim(r, op) == r.iss \in {"", op}
Delivered(t) == t.status = 200 /\ t.shape = "ok"
\* What must be for the answer to be accepted. An ID Token that comes along is always checked
Acceptable2(r, rt, me, op, keys) ==
    /\ FromHim(r, op) /\ ~r.error
    /\ Front(rt) => GoodToken(r.idt, me, op, r.state, keys)
    /\ ~r.idt.none => GoodToken(r.idt, me, op, r.state, keys)
    /\ Back(rt) => /\ r.code /\ Delivered(r.token)
                   /\ ~r.token.idt.none => GoodToken(r.token.idt, me, op, r.state, keys)
                   /\ r.info.status = 200
                   /\ ~r.token.idt.none => r.info.sub = r.token.idt.sub
\* Who has logged in
Subject(r, rt) == IF Back(rt) THEN (IF r.token.idt.none THEN "" ELSE r.token.idt.sub) ELSE r.idt.sub
\* An answer that nothing is wrong with
Flawless(r, rt, me, op, keys) ==
    /\ Acceptable2(r, rt, me, op, keys) /\ r.iss = op /\ rt # "code id_token" /\ r.code = Back(rt) /\ r.idt.none = ~Front(rt)
    /\ LET d == IF Back(rt) THEN r.token.idt ELSE r.idt IN ~d.none /\ d.life > 0 /\ d.aud = <<me>>
    /\ Back(rt) => ~r.token.plant
=============================================================================
