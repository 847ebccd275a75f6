--------------------------------- MODULE SelfMC ---------------------------------
(* An entity that is reconfigured, changes keys and makes statements, and someone that reads   *)
(* them later with the key the superior has registered                                         *)
EXTENDS Self, TLC
CONSTANTS Keys, MaxLen, MaxNow, Life
VARIABLES now, keys, src, md, said
vars == <<now, keys, src, md, said>>
Values == {SubSeq(<<"t", "u">>, 1, n) : n \in 0..MaxLen}
Srcs == {Source(h, v) : h \in {"list", "file", "fun"}, v \in Values}
Init == now = 0 /\ keys \in {{k} : k \in Keys} /\ src \in [{"hints", "marks"} -> {Nothing}] /\ said = {} /\ md = "A"
Configure == \E w \in {"hints", "marks"}, s \in Srcs : src' = [src EXCEPT ![w] = s] /\ UNCHANGED <<now, keys, md, said>>
Change == \E w \in {"hints", "marks"}, v \in Values : src' = [src EXCEPT ![w].v = v] /\ UNCHANGED <<now, keys, md, said>>
Add == \E k \in Keys \ keys : keys' = keys \cup {k} /\ UNCHANGED <<now, src, md, said>>
Drop == \E k \in keys : keys # {k} /\ keys' = keys \ {k} /\ UNCHANGED <<now, src, md, said>>
Say == \E k \in keys : said' = {[s |-> Statement("a", keys, src["hints"], src["marks"], {"fe"}, md, now, Life), by |-> k, src |-> src, md |-> md]}
                       /\ UNCHANGED <<now, keys, src, md>>
Describe == \E m \in {"A", "B"} : md' = m /\ UNCHANGED <<now, keys, src, said>>
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<keys, src, md, said>>
Next == Configure \/ Change \/ Add \/ Drop \/ Say \/ Describe \/ Tick
Spec == Init /\ [][Next]_vars
\* What has been said is signed with a key in it, and is not changed by what happens afterwards
SelfContained == \A x \in said : x.by \in x.s.keys /\ x.s.iss = x.s.sub /\ x.s.hints = x.src["hints"].v /\ x.s.marks = x.src["marks"].v /\ x.s.md = x.md
Lives == \A x \in said : x.s.exp = x.s.iat + Life /\ x.s.iat <= now
=============================================================================
