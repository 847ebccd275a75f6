----------------------------- MODULE TrustMarkTrace -----------------------------
EXTENDS TrustMark, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, now
Steps == Trace[t].steps
World ==
    LET w == Trace[t].world IN
    [known |-> Range(w.known), fake |-> Range(w.fake),
     ents |-> {[id |-> e.id, keys |-> Range(e.keys), signer |-> e.signer, hints |-> Range(e.hints)] : e \in Range(w.ents)},
     edges |-> {[sup |-> e.sup, sub |-> e.sub, keys |-> Range(e.keys)] : e \in Range(w.edges)},
     owners |-> {[anchor |-> o.anchor, id |-> o.id, sub |-> o.sub, keys |-> Range(o.keys)] : o \in Range(w.owners)},
     issuers |-> {[anchor |-> o.anchor, id |-> o.id] : o \in Range(w.issuers)}]

\* Whether an anchor itself may issue trust marks is left open
IsAnchor(w, e) == e \in w.known \/ Ent(w, e).hints = {}
\* check with a given trust anchor
JudgeVerify(w, s) ==
    LET e == Accept(w, s.m, s.anchor, s.eid, now) IN
    IF s.obs.ok THEN (IF e THEN {} ELSE {"accepted"}) \cup (IF s.obs.same THEN {} ELSE {"claims_changed"})
    ELSE IF e /\ w.fake = {} /\ Sound(w, s.m.iss) /\ ~IsAnchor(w, s.m.iss) THEN {"refused"} ELSE {}
\* check with whatever anchor the verifier knows, and with the issuer
JudgeEntity(w, s) ==
    LET could == \E a \in w.known : Accept(w, s.m, a, "", now)
        must  == /\ could /\ w.fake = {} /\ Sound(w, s.m.iss) /\ ~IsAnchor(w, s.m.iss)
                 /\ \A a \in w.known : Chains(w, a, s.m.iss) => Accept(w, s.m, a, "", now)
        stat  == ~s.check \/ s.status = "active"
    IN IF s.obs.ok THEN (IF could THEN {} ELSE {"accepted"}) \cup (IF stat THEN {} ELSE {"accepted_not_active"})
                        \cup (IF s.obs.same THEN {} ELSE {"claims_changed"})
       ELSE IF must /\ stat THEN {"refused"} ELSE {}
Judge(s) == CASE s.op = "verify" -> JudgeVerify(World, s)
              [] s.op = "entity" -> JudgeEntity(World, s)
              [] OTHER -> {}
Init == t \in 1..Len(Trace) /\ l = 0 /\ now = 0
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1] IN
       /\ now' = IF s.op = "tick" THEN now + s.d ELSE now
       /\ LET c == Judge(s) IN
          IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, now |-> now, obs |-> s]))
Spec == Init /\ [][Next]_<<t, l, now>>
=============================================================================
