------------------------------ MODULE TrustMarkMC ------------------------------
(* Issuers, owners that delegate, members that lie, and a verifier. "t" and   *)
(* "u" are anchors, the verifier knows only "t". "i" is an issuer and "x" a   *)
(* member of t's federation that cannot be trusted, "j" is only below "u",    *)
(* and "o" owns the marks "a".                                               *)
EXTENDS TrustMark, TLC, Json
CONSTANTS Exps, MaxNow, MaxMade

E(id, hints) == [id |-> id, keys |-> {id \o "1"}, signer |-> id \o "1", hints |-> hints]
World ==
    [known |-> {"t"}, fake |-> {},
     ents |-> {E("t", {}), E("u", {}), E("i", {"t"}), E("x", {"t"}), E("j", {"u"}), E("n", {"t"})},
     edges |-> {[sup |-> "t", sub |-> "i", keys |-> {"i1"}], [sup |-> "t", sub |-> "x", keys |-> {"x1"}],
                [sup |-> "u", sub |-> "j", keys |-> {"j1"}], [sup |-> "x", sub |-> "n", keys |-> {"x1"}]},
     owners |-> {[anchor |-> "t", id |-> "a", sub |-> "o", keys |-> {"o1"}],
                 [anchor |-> "u", id |-> "b", sub |-> "x", keys |-> {"x1"}]},
     issuers |-> {[anchor |-> "t", id |-> "a"], [anchor |-> "u", id |-> "b"]}]
Honest == {"i", "j", "t", "o"}
Bad == {"x1"}
Issuers == {"i", "j", "x", "t", "n"}
Ids == {"a", "b"}
VARIABLES now, delegs, marks, honest
vars == <<now, delegs, marks, honest>>
Init == now = 0 /\ delegs = {} /\ marks = {} /\ honest = {}

Made == Cardinality(delegs) + Cardinality(marks)
\* The owner delegates; the liar makes up a delegation (with its own key)
Delegate(d) == /\ (d.iss = "o" /\ d.by = "o1") \/ d.by \in Bad
               /\ delegs' = delegs \cup {d} /\ UNCHANGED <<now, marks, honest>>
Issue(m) == /\ m.iss \in Honest /\ m.by = m.iss \o "1"
            /\ marks' = marks \cup {m} /\ honest' = honest \cup {m} /\ UNCHANGED <<now, delegs>>
Forge(m) == /\ m.by \in Bad /\ marks' = marks \cup {m} /\ UNCHANGED <<now, delegs, honest>>
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<delegs, marks, honest>>
AnyDeleg == [iss : {"o", "x"}, sub : {"i", "x"}, id : {"a"}, exp : Exps \cup {NoExp}, by : {"o1", "x1"}]
DelegSeqs == {<<>>} \cup {<<d>> : d \in delegs}
AnyMark == [iss : Issuers, sub : {"s"}, id : Ids, iat : {0}, exp : Exps \cup {NoExp}, by : {"i1", "j1", "x1", "t1"}, deleg : DelegSeqs]
Next == Tick \/ (Made < MaxMade /\ ((\E d \in AnyDeleg : Delegate(d)) \/ (\E m \in AnyMark : Issue(m) \/ Forge(m))))
Spec == Init /\ [][Next]_vars

Accepted == {m \in marks : Accept(World, m, "t", "", now)}
\* A mark in the name of someone honest was made by that one
NoForgery == \A m \in Accepted : m.iss \in Honest => m \in honest
\* Whoever is only part of another federation, or claims to be someone's subordinate, is not believed
OnlyFederation == \A m \in Accepted : m.iss \in {"i", "t", "x"}
\* With delegation: the owner has delegated to the one who issued
OnlyDelegated == \A m \in Accepted : m.deleg # <<>> =>
                     \E d \in delegs : d.by = "o1" /\ d.sub = m.iss /\ d.id = m.id /\ Alive(d, now)
NothingFromOther == \A m \in marks : ~Accept(World, m, "u", "", now)
NotForOthers == \A m \in marks : ~Accept(World, m, "t", "someone", now)
\* once expired, never accepted again
NeverBack == [][\A m \in marks : m \notin Accepted => ~Accept(World, m, "t", "", now')]_vars
Emit == Cardinality(marks) = 1 => PrintT("CASE " \o ToJson([m |-> CHOOSE m \in marks : TRUE]))
=============================================================================
