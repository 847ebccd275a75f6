-------------------------------- MODULE SelectMC --------------------------------
EXTENDS Select, TLC, Json
CONSTANTS Anchors, Subs, Lens, MaxSaves, MaxChains, Exps
VARIABLES saved, prio, hist, now, kept
vars == <<saved, prio, hist, now, kept>>
Prios == {p \in UNION {[1..n -> Anchors] : n \in 0..Cardinality(Anchors)} : \A i, j \in DOMAIN p : p[i] = p[j] => i = j}
Chain(a, s, n, x) == [anchor |-> a, sub |-> s, len |-> n, exp |-> x]
Sets(s) == {cs \in SUBSET {Chain(a, s, n, x) : a \in Anchors, n \in Lens, x \in Exps} : Cardinality(cs) \in 1..MaxChains}
Init == saved = {} /\ prio \in Prios /\ hist = <<>> /\ now = 0 /\ kept = {}
RECURSIVE AllNew(_, _)
\* every way to choose among equals
AllNew(cs, as) == IF as = {} THEN {{}} ELSE
    LET a == CHOOSE x \in as : TRUE IN
    IF Shortest(cs, a) = {} THEN AllNew(cs, as \ {a})
    ELSE {r \cup {[sub |-> c.sub, anchor |-> a, c |-> c]} : c \in Shortest(cs, a), r \in AllNew(cs, as \ {a})}
Save(s, cs) == /\ \E n \in AllNew(cs, Anchors) : saved' = n \cup {x \in saved : x.sub # s \/ \A c \in cs : c.anchor # x.anchor}
               /\ hist' = Append(hist, cs) /\ kept' = cs /\ UNCHANGED <<prio, now>>
Tick == now < 2 /\ now' = now + 1 /\ UNCHANGED <<saved, prio, hist, kept>>
Next == Tick \/ (Len(hist) < MaxSaves /\ \E s \in Subs : \E cs \in Sets(s) : Save(s, cs))
Spec == Init /\ [][Next]_vars
Lasting == [][\A s \in Subs, a \in Anchors : At(saved, s, a) # {} => At(saved', s, a) # {}]_vars
Refines == [][hist' # hist => SavedOk(saved, hist'[Len(hist')], saved')]_vars
Unique == \A x, y \in saved : x.sub = y.sub /\ x.anchor = y.anchor => x = y
\* There is always a choice, and priorities that tell all anchors apart leave but one anchor
Choice == \A s \in Subs : LET cs == {x.c : x \in Of(saved, s)} IN
            /\ (cs # {}) = (Best(prio, cs) # {})
            /\ (Range(prio) = Anchors => Cardinality(Best(prio, cs)) <= 1)
            /\ \A c \in Best(prio, cs), d \in cs : d.anchor \in Range(prio) => c.anchor \in Range(prio)
\* Leaving out what was not chosen does not change the choice
Consistent == \A s \in Subs : LET cs == {x.c : x \in Of(saved, s)} IN
            \A c \in Best(prio, cs) : \A sub \in SUBSET cs : c \in sub => c \in Best(prio, sub)
Last == [][Usable(kept, now') \subseteq Usable(kept, now) \/ kept' # kept]_vars
=============================================================================
