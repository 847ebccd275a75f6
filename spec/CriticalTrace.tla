----------------------------- MODULE CriticalTrace -----------------------------
EXTENDS Critical, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
Steps == Trace[t].steps
Judge(s) ==
    LET v == ChainVerdict(s.sts, Range(s.known), Range(s.knownops)) IN
    IF v = "bad" /\ s.ok THEN {"critical_accepted"}
    ELSE IF v = "ok" /\ ~s.ok THEN {"refused"} ELSE {}
Init == t \in 1..Len(Trace) /\ l = 0
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET c == Judge(Steps[l + 1]) IN
       IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, obs |-> Steps[l + 1]]))
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
