------------------------------ MODULE CriticalMC ------------------------------
(* Every small statement, read by a receiver that goes through it claim by   *)
(* claim, and that ends up not understanding something critical or not.      *)
EXTENDS Critical, TLC, Json

CONSTANTS Names, Ops, MaxLen, Known, KnownOps

SeqsOf(S) == UNION {[1..n -> S] : n \in 0..MaxLen}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Lists(S) == {s \in SeqsOf(S) : Distinct(s)}

VARIABLES st, known, knownops, pos, notunderstood, verdict
vars == <<st, known, knownops, pos, notunderstood, verdict>>

Init ==
    /\ st \in [claims : Lists(Names), hascrit : BOOLEAN, crit : Lists(Names \cup {"sub"}),
               ops : Lists(Ops), hasplc : BOOLEAN, plc : Lists(Ops)]
    /\ ~st.hascrit => st.crit = <<>>
    /\ ~st.hasplc => st.plc = <<>>
    /\ known \in Known /\ knownops \in KnownOps
    /\ pos = 1 /\ notunderstood = {} /\ verdict = "none"

Read ==
    /\ pos <= Len(st.claims)
    /\ notunderstood' = notunderstood \cup
         (IF st.claims[pos] \in Range(st.crit) /\ st.claims[pos] \notin StandardClaims \cup known
          THEN {st.claims[pos]} ELSE {})
    /\ pos' = pos + 1 /\ UNCHANGED <<st, known, knownops, verdict>>
ReadOp ==
    /\ pos > Len(st.claims) /\ pos <= Len(st.claims) + Len(st.ops)
    /\ LET o == st.ops[pos - Len(st.claims)] IN
       notunderstood' = notunderstood \cup
         (IF o \in Range(st.plc) /\ o \notin StandardOps \cup knownops THEN {o} ELSE {})
    /\ pos' = pos + 1 /\ UNCHANGED <<st, known, knownops, verdict>>
Decide ==
    /\ pos > Len(st.claims) + Len(st.ops) /\ verdict = "none"
    /\ verdict' = Verdict(st, known, knownops)
    /\ UNCHANGED <<st, known, knownops, pos, notunderstood>>
Next == Read \/ ReadOp \/ Decide
Spec == Init /\ [][Next]_vars

\* What is accepted is understood, and what is not critical never stops anything
Understood == verdict \in {"ok"} => notunderstood = {}
NotTooStrict == verdict = "bad" => notunderstood # {}
Emit == verdict # "none" =>
          PrintT("CASE " \o ToJson([st |-> st, known |-> known, knownops |-> knownops]))
=============================================================================
