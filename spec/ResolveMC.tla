------------------------------- MODULE ResolveMC -------------------------------
(* A resolver with a cache in a federation t - m - l (and t - l) that changes  *)
EXTENDS Resolve, TLC, Json
CONSTANTS MaxNow, MaxOps, Lives
VARIABLES now, ver, cache, answers, n
vars == <<now, ver, cache, answers, n>>
\* what there is to fetch: <<iss, sub>>
Names == {<<"l", "l">>, <<"m", "l">>, <<"t", "m">>, <<"t", "l">>}
Paths == {<<<<"l", "l">>, <<"m", "l">>, <<"t", "m">>>>, <<<<"l", "l">>, <<"t", "l">>>>}
KeyOf(e) == e \o "1"
\* ver: how many times what is stated has been changed
Doc(d) == [iss |-> d[1], sub |-> d[2], signer |-> KeyOf(d[1]), jwks |-> {KeyOf(d[2])}, exp |-> now + Lives[d],
           md |-> IF d[1] = d[2] THEN {[t |-> "rp", v |-> 99]} ELSE {},
           add |-> IF d[1] = d[2] THEN {} ELSE {[t |-> "rp", v |-> ver[d]], [t |-> "op", v |-> ver[d]]}, at |-> now]
Init == now = 0 /\ ver = [d \in Names |-> 0] /\ cache = {} /\ answers = {} /\ n = 0
Cached(d) == {c \in cache : c.iss = d[1] /\ c.sub = d[2] /\ now <= c.exp}
Get(d) == IF Cached(d) # {} THEN CHOOSE c \in Cached(d) : TRUE ELSE Doc(d)
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<ver, cache, answers, n>>
Change(d) == n < MaxOps /\ n' = n + 1 /\ ver' = [ver EXCEPT ![d] = @ + 1] /\ UNCHANGED <<now, cache, answers>>
Resolve == /\ n < MaxOps /\ n' = n + 1
           /\ \E p \in Paths :
                LET docs == [i \in 1..Len(p) |-> Get(p[i])] IN
                /\ Proves(docs, "l", "t", {"t1"}, now)
                /\ answers' = answers \cup {[docs |-> docs, md |-> Resolved(docs), exp |-> MinExp(docs), at |-> now]}
                /\ cache' = {c \in cache : \A i \in 1..Len(docs) : <<c.iss, c.sub>> # <<docs[i].iss, docs[i].sub>>} \cup Range(docs)
           /\ UNCHANGED <<now, ver>>
Next == Tick \/ Resolve \/ \E d \in Names : Change(d)
Spec == Init /\ [][Next]_vars
Lives3 == [d \in Names |-> IF d[1] = "l" THEN 2 ELSE IF d[1] = "m" THEN 1 ELSE 3]
\* Anyone who gets the answer can check it for as long as it says it is valid, and gets to the same
Proven == \A a \in answers : now <= a.exp => Proves(a.docs, "l", "t", {"t1"}, now) /\ Resolved(a.docs) = a.md
\* No answer is older than what its statements allow
Fresh == \A a \in answers : now <= a.exp => \A i \in 1..Len(a.docs) : now - a.docs[i].at <= Lives[<<a.docs[i].iss, a.docs[i].sub>>]
NotOther == \A a \in answers : Types(a.md) \subseteq {"rp"}
=============================================================================
