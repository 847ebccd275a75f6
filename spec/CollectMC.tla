------------------------------ MODULE CollectMC ------------------------------
(* Collecting, one superior at the time, in every graph of hints.            *)
EXTENDS Collect, TLC, Json
CONSTANTS Ents, Leaf, MaxHints
VARIABLES hints, stop, todo, found
vars == <<hints, stop, todo, found>>

Orders(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Range(s) = S
HintSets == {Orders(S) : S \in {S \in SUBSET Ents : Cardinality(S) <= MaxHints}}

Init == /\ hints \in [Ents -> HintSets]
        /\ stop \in Ents \cup {"none"}
        /\ todo = {<<>>}
        /\ found = {}
At(p) == IF p = <<>> THEN Leaf ELSE p[Len(p)]
\* one partial path is extended, all the ways there are
Step(p) ==
    LET nxt == NextUp(hints, stop, At(p), p) IN
    /\ todo' = (todo \ {p}) \cup {Append(p, a) : a \in nxt}
    /\ found' = IF nxt = {} /\ p # <<>> THEN found \cup {p} ELSE found
    /\ UNCHANGED <<hints, stop>>
\* the order does not matter for what is found
Pick == CHOOSE p \in todo : \A q \in todo : Len(q) <= Len(p)
Next == todo # {} /\ Step(Pick)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(todo = {})
Exact == todo = {} => found = Paths(hints, stop, Leaf)
Sound == \A p \in found : IsPath(hints, stop, Leaf, p)
Simple == \A p \in todo \cup found : IsSimple(p) /\ Len(p) <= Cardinality(Ents)
\* nothing that is a path is missed
AllSeqs == UNION {[1..n -> Ents] : n \in 1..Cardinality(Ents)}
Complete == todo = {} => \A p \in AllSeqs : IsPath(hints, stop, Leaf, p) => p \in found

Emit == todo = {<<>>} => PrintT("CASE " \o ToJson([hints |-> hints, stop |-> stop]))
=============================================================================
