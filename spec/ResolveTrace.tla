------------------------------ MODULE ResolveTrace ------------------------------
EXTENDS Resolve, World, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, now, steady
Steps == Trace[t].steps
TV(q) == {[t |-> x.t, v |-> x.v] : x \in Range(q)}
Doc(d) == [iss |-> d.iss, sub |-> d.sub, signer |-> d.signer, jwks |-> Range(d.jwks), exp |-> d.exp, md |-> TV(d.md), add |-> TV(d.add)]
W == Trace[t].world
\* known anchors and their keys: a sequence of [id, keys]
AKeys(a) == UNION {Range(x.keys) : x \in {y \in Range(W.known) : y.id = a}}

Judge(s) ==
    LET ds == [i \in DOMAIN s.obs.docs |-> Doc(s.obs.docs[i])]
        p == Proves(ds, s.sub, s.anchor, AKeys(s.anchor), now) IN
    IF ~s.obs.ok
    THEN IF steady /\ Exists(W, s.sub) /\ Sound(W, s.sub) /\ AKeys(s.anchor) # {} /\ Chains(W, s.anchor, s.sub)
             /\ (s.type # "" => s.type \in Range(Ent(W, s.sub).types))
         THEN {"not_answered"} ELSE {}
    ELSE (IF p THEN {} ELSE {"no_proof"})
         \cup (IF p /\ TV(s.obs.md) # OnlyType(Resolved(ds), s.type) THEN {"wrong_metadata"} ELSE {})
         \cup (IF p /\ s.obs.exp > MinExp(ds) THEN {"too_long"} ELSE {})
         \cup (IF s.obs.exp < now THEN {"already_expired"} ELSE {})
         \cup (IF s.obs.sig /\ s.obs.iss = W.self /\ s.obs.sub = s.sub THEN {} ELSE {"not_signed_answer"})
         \cup (IF s.obs.same THEN {} ELSE {"third_party_differs"})
Init == t \in 1..Len(Trace) /\ l = 0 /\ now = 0 /\ steady = TRUE
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1] IN
       /\ now' = IF s.op = "tick" THEN now + s.d ELSE IF s.op = "resolve" THEN s.after ELSE now
       /\ steady' = (steady /\ s.op # "change")
       /\ LET c == IF s.op = "resolve" THEN Judge(s) ELSE {} IN
          IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, now |-> now, obs |-> s]))
Spec == Init /\ [][Next]_<<t, l, now, steady>>
=============================================================================
