------------------------------ MODULE AuthorityMC ------------------------------
EXTENDS Authority, TLC, Json
CONSTANTS Subs, MaxOps
Me == "me"
TypeSets == {{}, {"rp"}, {"rp", "op"}}
Infos == [sub : Subs, jwks : {{"k1"}, {"k2"}}, types : TypeSets, im : {FALSE, TRUE}, hints : {<<>>},
          md : {{}, {[t |-> "rp", v |-> "m1"]}}, mdp : {{}, {[t |-> "rp", v |-> "p1"]}}, cons : {""}, ext : {{}}]
Policies == {[id |-> "rp", hasmd |-> FALSE, md |-> {}, hasmdp |-> TRUE, mdp |-> {[t |-> "rp", v |-> "p2"]}],
             [id |-> "op", hasmd |-> TRUE, md |-> {[t |-> "op", v |-> "m3"]}, hasmdp |-> TRUE, mdp |-> {[t |-> "op", v |-> "p3"]}],
             [id |-> "s", hasmd |-> FALSE, md |-> {}, hasmdp |-> TRUE, mdp |-> {[t |-> "rp", v |-> "p4"]}]}
VARIABLES reg, pols, n, hist
vars == <<reg, pols, n, hist>>
Init == reg = {} /\ pols = {} /\ n = 0 /\ hist = <<>>
Register(r) == /\ reg' = {x \in reg : x.sub # r.sub} \cup {r} /\ UNCHANGED pols /\ hist' = Append(hist, [op |-> "register", r |-> r, id |-> ""])
Remove(s) == Registered(reg, s) /\ reg' = {x \in reg : x.sub # s} /\ UNCHANGED pols /\ hist' = Append(hist, [op |-> "remove", r |-> [sub |-> s], id |-> ""])
Policy(p) == p \notin pols /\ pols' = pols \cup {p} /\ UNCHANGED reg /\ hist' = Append(hist, [op |-> "policy", r |-> p, id |-> p.id])
Next == n < MaxOps /\ n' = n + 1 /\ ((\E r \in Infos : Register(r)) \/ (\E s \in Subs : Remove(s)) \/ \E p \in Policies : Policy(p))
Spec == Init /\ [][Next]_vars

Q == [type : {"", "rp", "op"}, im : BOOLEAN, marked : {FALSE}, mark : {""}]
\* Only the keys that were registered are vouched for, and only for whom they were registered
Vouch == \A s \in Subs : Registered(reg, s) => Statement(reg, pols, Me, s).jwks = Info(reg, s).jwks
\* Filters narrow, together to what each of them gives
Filters == \A q \in Q : Listed(reg, {}, q) =
             Listed(reg, {}, [q EXCEPT !.im = FALSE]) \cap Listed(reg, {}, [q EXCEPT !.type = ""])
Everyone == Listed(reg, {}, [type |-> "", im |-> FALSE, marked |-> FALSE, mark |-> ""]) = {s \in Subs : Registered(reg, s)}
\* Policies for other types than those of the subordinate do not reach it
Reach == \A s \in Subs : Registered(reg, s) =>
            LET st == Statement(reg, pols, Me, s) r == Info(reg, s) IN
            Types(st.mdp) \cup Types(st.md) \subseteq Types(r.md) \cup Types(r.mdp) \cup r.types \cup Types(UNION {p.mdp \cup p.md : p \in PolFor(pols, s)})
Emit == n = MaxOps => PrintT("CASE " \o ToJson([ops |-> hist]))
=============================================================================
