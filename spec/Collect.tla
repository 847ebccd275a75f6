------------------------------- MODULE Collect -------------------------------
(* Collecting trust chains: following authority hints from an entity upward, *)
(* and the cache of what was collected.                                      *)
(*                                                                           *)
(* hints[e] is the sequence of authorities that e names as its superiors.    *)
(* A path is the sequence of superiors of the leaf, nearest first.           *)
(*                                                                           *)
(* A document is what was received: [n |-> serial number, type |-> "ec" (e's *)
(* own configuration) or "es" (iss about sub), iss, sub, exp, hints, at |->  *)
(* when it was received].                                                    *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in 1..Len(s)}

\* Where to go from e when the authorities in seen have been passed
NextUp(hints, stop, e, seen) == IF e = stop THEN {} ELSE Range(hints[e]) \ Range(seen)

RECURSIVE PathsFrom(_, _, _, _)
PathsFrom(hints, stop, e, seen) ==
    LET nxt == NextUp(hints, stop, e, seen)
    IN  IF nxt = {} THEN {<<>>}
        ELSE UNION {{<<a>> \o p : p \in PathsFrom(hints, stop, a, Append(seen, a))} : a \in nxt}

Paths(hints, stop, leaf) == PathsFrom(hints, stop, leaf, <<>>) \ {<<>>}

\* The same thing, without recursion: see IsPath
IsSimple(p) == \A i, j \in 1..Len(p) : p[i] = p[j] => i = j
Below(leaf, p, i) == IF i = 1 THEN leaf ELSE p[i-1]
IsPath(hints, stop, leaf, p) ==
    /\ Len(p) > 0
    /\ IsSimple(p)
    /\ \A i \in 1..Len(p) : /\ p[i] \in Range(hints[Below(leaf, p, i)])
                            /\ Below(leaf, p, i) # stop
    \* it ends where there is no way on
    /\ p[Len(p)] = stop \/ Range(hints[p[Len(p)]]) \subseteq Range(p)

\* The statements that make up the chain of a path: <<iss, sub>>, topmost first
Edges(leaf, p) == [i \in 1..Len(p) |-> <<p[Len(p) + 1 - i], Below(leaf, p, Len(p) + 1 - i)>>]

\* Everybody whose configuration is needed, and the statements that are
NeededEC(hints, stop, leaf) == {leaf} \cup UNION {Range(p) : p \in Paths(hints, stop, leaf)}
NeededES(hints, stop, leaf) == UNION {Range(Edges(leaf, p)) : p \in Paths(hints, stop, leaf)}

-----------------------------------------------------------------------------
(* The cache: something received earlier can be used again as long as it is  *)
(* valid for at least delta more seconds.                                    *)
Usable(doc, now, delta) == now <= doc.exp - delta
MustReuse(doc, now, delta) == now < doc.exp - delta
=============================================================================
