-------------------------------- MODULE Chain --------------------------------
(* Verification of trust chains by one entity over its life time.            *)
(*                                                                           *)
(* Statement: [iss, sub, signer, kid, alg, tampered, hasjwks, jwks, exp,     *)
(*             crit, mpl, permitted, excluded, host, path]                          *)
(*   signer   the key that made the signature, kid the key the header names  *)
(*   jwks     sequence of the keys vouched for                               *)
(*   exp      expiration time                                                *)
(*   crit     "ok" nothing critical that is not understood                   *)
(*            "bad" something critical that is not understood                *)
(*   host     labels of the host of sub                                      *)
(* A chain is a sequence of statements, the trust anchor's first, the        *)
(* subject's own last.                                                       *)
(*                                                                           *)
(* Entity configuration: cfg = [self, anchors, keys] where keys says which   *)
(* keys the entity was configured with for itself and for every anchor       *)
(* (a sequence of [id, keys]).                                               *)
EXTENDS Naming

KeysOf(cfg, id) == UNION { Range(cfg.keys[i].keys) : i \in {j \in 1..Len(cfg.keys) : cfg.keys[j].id = id} }
TrustedIssuer(cfg, id) == id = cfg.self \/ id \in Range(cfg.anchors)

SignedBy(st, keys) ==
    /\ st.alg # "none"
    /\ ~st.tampered
    /\ st.signer = st.kid
    /\ st.signer \in keys

\* which keys statement i has to be signed with
Vouched(cfg, chain, i) ==
    IF i = 1 THEN KeysOf(cfg, chain[1].iss) ELSE Range(chain[i-1].jwks)

LinkOK(cfg, chain, i) ==
    IF i = 1 THEN TrustedIssuer(cfg, chain[1].iss) ELSE chain[i].iss = chain[i-1].sub

\* All the reasons there are for not accepting a chain
Reasons(cfg, chain, now) ==
    LET n == Len(chain) IN
    { "anchor"    : i \in {i \in {1} : ~LinkOK(cfg, chain, i)} } \cup
    { "link"      : i \in {i \in 2..n : ~LinkOK(cfg, chain, i)} } \cup
    { "signature" : i \in {i \in 1..n : ~SignedBy(chain[i], Vouched(cfg, chain, i))} } \cup
    { "keys"      : i \in {i \in 1..n-1 : ~chain[i].hasjwks} } \cup
    { "expired"   : i \in {i \in 1..n : chain[i].exp < now} } \cup
    { "critical"  : i \in {i \in 1..n : chain[i].crit = "bad"} } \cup
    Walk(chain).why

\* A chain with an entity configuration in the middle, or where the last statement is not the
\* subject's own, is not something that is collected. Nothing is said about those.
Shape(chain) ==
    /\ \A i \in 2..Len(chain) - 1 : chain[i].iss # chain[i].sub
    /\ chain[Len(chain)].iss = chain[Len(chain)].sub

Acceptable(cfg, chain, now) == Reasons(cfg, chain, now) = {}

MinExp(chain) == CHOOSE e \in {chain[i].exp : i \in 1..Len(chain)} :
                    \A i \in 1..Len(chain) : e <= chain[i].exp
IssPath(chain) == [i \in 1..Len(chain) |-> chain[Len(chain) + 1 - i].iss]

\* Keys learned from an accepted chain: never any for the anchors or for the entity itself
Learned(cfg, chain) ==
    { <<chain[i].sub, k>> : i \in {j \in 1..Len(chain) : ~TrustedIssuer(cfg, chain[j].sub)},
                            k \in UNION {Range(chain[j].jwks) : j \in 1..Len(chain)} }
=============================================================================
