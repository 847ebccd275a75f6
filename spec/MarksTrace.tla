------------------------------- MODULE MarksTrace -------------------------------
EXTENDS Marks, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
\* tokens: the trust marks, as JWTs, that there are. own: signed by the issuer
VARIABLES t, l, issued, tokens, now
Steps == Trace[t].steps
\* life times of the trust marks of this issuer: a sequence of [id, life]
Life(id) == (CHOOSE x \in Range(Trace[t].lives) : x.id = id).life
KnownIds == {x.id : x \in Range(Trace[t].lives)}
\* Issued at some time between when it was asked for and when the answer was there
IssuedAt(s) == IF s.obs.mark.iat \in now..s.after THEN s.obs.mark.iat ELSE now
Expected(s) ==
    LET n == IssuedAt(s) IN
    [id |-> s.id, sub |-> s.sub, iat |-> n,
     exp |-> IF s.exp # NoExp THEN s.exp ELSE IF Life(s.id) = NoExp THEN NoExp ELSE n + Life(s.id)]
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]

Judge(s) ==
    CASE s.op = "issue" ->
           IF s.id \notin KnownIds THEN (IF s.obs.ok THEN {"unknown_issued"} ELSE {})
           ELSE IF ~s.obs.ok THEN {"not_issued"}
           ELSE LET e == Expected(s) IN
                (IF s.obs.mark # e THEN {"wrong_mark"} ELSE {})
                \cup (IF ~s.obs.sig THEN {"signature"} ELSE {})
                \cup (IF ~s.obs.iss THEN {"wrong_issuer"} ELSE {})
                \cup (IF ~s.obs.claims THEN {"wrong_claims"} ELSE {})
      [] s.op \in {"find", "status"} ->
           LET e == Active(issued, now, s.id, s.sub, s.iat) IN
           IF e = s.obs.active THEN {} ELSE IF s.obs.active THEN {s.op \o "_active"} ELSE {s.op \o "_not_active"}
      [] s.op = "token" ->
           LET m == tokens[s.n]
               e == m.own /\ Valid(m.mark, now) /\ Active(issued, now, m.mark.id, m.mark.sub, m.mark.iat) IN
           IF e = s.obs.active THEN {} ELSE IF s.obs.active THEN {"token_active"} ELSE {"token_not_active"}
      [] s.op = "list" ->
           LET h == Holders(issued, now, s.id)
               e == IF s.sub = "" THEN h ELSE h \cap {s.sub} IN
           (IF Range(s.obs.subs) # e THEN {IF Range(s.obs.subs) \subseteq e THEN "list_missing" ELSE "list_extra"} ELSE {})
           \cup (IF Distinct(s.obs.subs) THEN {} ELSE {"list_twice"})
      [] OTHER -> {}

Init == t \in 1..Len(Trace) /\ l = 0 /\ issued = <<>> /\ tokens = <<>> /\ now = 0
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1] IN
       /\ issued' = IF s.op = "issue" /\ s.id \in KnownIds THEN Append(issued, Expected(s))
                    ELSE IF s.op = "withdraw" THEN SelectSeq(issued, LAMBDA m : m.id # s.id \/ m.sub # s.sub)
                    ELSE issued
       /\ tokens' = IF s.op = "issue" /\ s.id \in KnownIds THEN Append(tokens, [own |-> TRUE, mark |-> Expected(s)])
                    ELSE IF s.op = "craft"
                      THEN Append(tokens, [own |-> s.key = "own",
                                           mark |-> [id |-> s.id, sub |-> s.sub, iat |-> s.iat, exp |-> NoExp]])
                    ELSE tokens
       /\ now' = IF s.op = "tick" THEN now + s.d ELSE IF s.op = "issue" THEN s.after ELSE now
       /\ LET c == Judge(s) IN
          IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, now |-> now, obs |-> s, issued |-> issued]))
Spec == Init /\ [][Next]_<<t, l, issued, tokens, now>>
=============================================================================
