-------------------------------- MODULE MarksMC --------------------------------
EXTENDS Marks, TLC, Json
CONSTANTS Ids, Subs, Ticks, MaxOps, Lives

MCLives == [i \in Ids |-> IF i = "a" THEN 3 ELSE NoExp]
VARIABLES issued, now, hist
vars == <<issued, now, hist>>
Init == issued = <<>> /\ now = 0 /\ hist = <<>>
Issue(id, sub) == /\ issued' = Append(issued, Mark(Lives, id, sub, now)) /\ UNCHANGED now
                  /\ hist' = Append(hist, [op |-> "issue", id |-> id, sub |-> sub, d |-> 0])
Tick(d) == /\ now' = now + d /\ UNCHANGED issued
           /\ hist' = Append(hist, [op |-> "tick", id |-> "", sub |-> "", d |-> d])
\* What was issued survives that the issuer is stopped and started
Restart == /\ UNCHANGED <<issued, now>> /\ hist # <<>> /\ hist[Len(hist)].op # "restart"
           /\ hist' = Append(hist, [op |-> "restart", id |-> "", sub |-> "", d |-> 0])
\* The records are cleansed of the trust marks someone has
Withdraw(id, sub) == /\ \E m \in Range(issued) : m.id = id /\ m.sub = sub
                     /\ issued' = SelectSeq(issued, LAMBDA m : m.id # id \/ m.sub # sub) /\ UNCHANGED now
                     /\ hist' = Append(hist, [op |-> "withdraw", id |-> id, sub |-> sub, d |-> 0])
Next == /\ Len(hist) < MaxOps
        /\ (\E id \in Ids, sub \in Subs : Issue(id, sub) \/ Withdraw(id, sub)) \/ (\E d \in Ticks : Tick(d)) \/ Restart
Spec == Init /\ [][Next]_vars

AllIats == 0..now
Consistent ==
    \A id \in Ids, sub \in Subs :
      /\ sub \in Holders(issued, now, id) <=> Active(issued, now, id, sub, -1)
      /\ Active(issued, now, id, sub, -1) <=> \E i \in AllIats : Active(issued, now, id, sub, i)
OnlyIssued == \A id \in Ids : Holders(issued, now, id) \subseteq {m.sub : m \in Range(issued)}
\* What is no longer active never becomes active again
NeverBack == [][\A id \in Ids, sub \in Subs, i \in 0..now :
                  (\E m \in Range(issued) : Match(m, id, sub, i)) /\ ~Active(issued, now, id, sub, i) /\ i < now
                     => ~Active(issued', now', id, sub, i)]_vars
Emit == Len(hist) = MaxOps => PrintT("CASE " \o ToJson([ops |-> hist]))
=============================================================================
