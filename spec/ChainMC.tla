------------------------------- MODULE ChainMC -------------------------------
(* The design: an attacker, or just unlucky, environment presents chains to  *)
(* an entity, time passes. Statements are built by those that have the keys. *)
(* Anchor T and other anchor U; intermediate I; leaf L; M is malicious, it is *)
(* a registered subordinate of T and has key m1. It says whatever it likes.  *)
EXTENDS Chain, TLC

CONSTANTS Ents, Lifetimes, MaxTime, MaxLen

cfg == [self |-> "S", anchors |-> <<"T">>,
        keys |-> <<[id |-> "T", keys |-> <<"t">>], [id |-> "S", keys |-> <<"s">>]>>]

\* Whom an honest entity with that key speaks for
Own == [T |-> "t", I |-> "i", L |-> "l", M |-> "m", U |-> "u"]
\* What honest superiors say
Registered == {<<"T", "I">>, <<"I", "L">>, <<"T", "M">>, <<"U", "L">>}

Mk(iss, sub, signer, jwks, exp) ==
    [iss |-> iss, sub |-> sub, signer |-> signer, kid |-> signer, alg |-> "ES256",
     tampered |-> FALSE, hasjwks |-> TRUE, jwks |-> <<jwks>>, exp |-> exp, crit |-> "ok",
     host |-> <<sub, "org">>, mpl |-> -1, permitted |-> <<>>, excluded |-> <<>>]

Exps == Lifetimes
\* honest statements and those that M makes up: any issuer, any subject, any keys, signed with m.
Honest == { Mk(r[1], r[2], Own[r[1]], Own[r[2]], e) : r \in Registered, e \in Exps } \cup
          { Mk(x, x, Own[x], Own[x], e) : x \in DOMAIN Own, e \in Exps }
Forged == { Mk(a, b, "m", k, e) : a \in Ents, b \in Ents, k \in {"m", "l"}, e \in Exps }
Pool == Honest \cup Forged

VARIABLES now, chain, accepted, learned
vars == <<now, chain, accepted, learned>>
Init == now = 0 /\ chain = <<>> /\ accepted = FALSE /\ learned = {}

Extend(st) == /\ Len(chain) < MaxLen /\ chain' = Append(chain, st) /\ accepted' = FALSE
              /\ UNCHANGED <<now, learned>>
Verify == /\ Len(chain) > 0
          /\ accepted' = Acceptable(cfg, chain, now)
          /\ learned' = (IF accepted' THEN Learned(cfg, chain) ELSE {})
          /\ UNCHANGED <<now, chain>>
Tick == now < MaxTime /\ now' = now + 1 /\ accepted' = FALSE /\ UNCHANGED <<chain, learned>>
Next == (\E st \in Pool : Extend(st)) \/ Verify \/ Tick
Spec == Init /\ [][Next]_vars

Leaf == chain[Len(chain)]
\* Everything accepted starts at the anchor (or oneself) ..
Anchored == accepted => chain[1].iss \in {"T", "S"}
\* .. an honest entity, below nobody but honest ones, is never impersonated: if a chain about L whose
\* issuers are honest is accepted then L's own statement is signed by L
NoImpersonation ==
    (accepted /\ \A i \in 1..Len(chain) : chain[i].iss # "M") => \A i \in 1..Len(chain) : chain[i] \in Honest
\* M can only speak for those it puts below itself
Confined ==
    accepted => \A i \in 1..Len(chain) : chain[i] \in Forged =>
        \E j \in 1..i : chain[j].iss = "M" \/ chain[j].sub = "M"
NotExpired == accepted => \A i \in 1..Len(chain) : chain[i].exp >= now
AnchorKeysFixed == \A p \in learned : p[1] \notin {"T", "S"}
=============================================================================
