------------------------------ MODULE ChainTrace ------------------------------
(* What was observed when an entity verified chains, one after the other,    *)
(* against Chain.tla.  One state per observed step; every step is judged and *)
(* what is not allowed is printed, with the clause it breaks.                *)
EXTENDS Chain, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
vars == <<t, l>>

Cfg == Trace[t].cfg
Steps == Trace[t].steps

AsSet(s) == Range(s)

\* The clauses an observed verification breaks
Judge(cfg, s) ==
    LET chain == s.chain
        why == Reasons(cfg, chain, s.now)
        o == s.obs
    IN  IF s.op = "restrict"
        THEN LET w == Walk(chain) IN
             IF o.ok = w.ok THEN {} ELSE IF o.ok THEN w.why ELSE {"rejected"}
        ELSE (IF ~Shape(chain) THEN {}
              ELSE IF o.ok /\ why # {} THEN why
              ELSE IF ~o.ok /\ why = {} THEN {"rejected"}
              ELSE {}) \cup
             (IF o.ok /\ why = {} THEN
                (IF o.exp = MinExp(chain) THEN {} ELSE {"exp"}) \cup
                (IF o.iss_path = IssPath(chain) THEN {} ELSE {"iss_path"}) \cup
                (IF o.anchor = chain[1].iss THEN {} ELSE {"anchor_id"}) \cup
                (IF o.subs = [i \in 1..Len(chain) |-> chain[i].sub] THEN {} ELSE {"verified_chain"})
              ELSE {}) \cup
             (IF \A i \in 1..Len(s.anchorkeys) :
                    Range(s.anchorkeys[i].keys) = KeysOf(cfg, s.anchorkeys[i].id)
              THEN {} ELSE {"anchor_keys"}) \cup
             \* only an accepted chain tells what keys others have
             (IF \A i \in 1..Len(s.learned) :
                    /\ o.ok
                    /\ \E j \in 1..Len(chain) : /\ chain[j].sub = s.learned[i].id
                                                /\ s.learned[i].key \in Range(chain[j].jwks)
              THEN {} ELSE {"learned_keys"})

Init == t \in 1..Len(Trace) /\ l = 0
Next ==
    /\ l < Len(Steps)
    /\ l' = l + 1
    /\ LET c == Judge(Cfg, Steps[l + 1]) IN
       IF c = {} THEN TRUE
       ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c,
                                     why |-> Reasons(Cfg, Steps[l+1].chain, Steps[l+1].now),
                                     obs |-> Steps[l + 1].obs]))
    /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
