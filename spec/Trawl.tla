---------------------------------- MODULE Trawl ----------------------------------
(* Walking down a federation to find the entities of a type. A federation: who lists whom, what *)
(* entities are, what is out of order, where entities say their superiors are.                   *)
EXTENDS Integers, Sequences, FiniteSets
\* Least set above s that is closed under the relation next (a set of pairs)
RECURSIVE Closure(_, _)
Closure(s, next) == LET more == s \cup {e[2] : e \in {x \in next : x[1] \in s}} IN IF more = s THEN s ELSE Closure(more, next)
Down(s, edges) == Closure(s, edges)
Up(s, edges) == Closure(s, {<<e[2], e[1]>> : e \in edges})
\* The walk that starts at root, goes down the edges in go and sees the types in types (of entities) and what authorities in
\* lists list (edges)
Found(root, go, lists, is) ==
    LET at == Down({root}, go) IN {e \in at : e \in is} \cup {c[2] : c \in {x \in lists : x[1] \in at /\ x[2] \in is}}
\* Entities that have a trust chain to one of the anchors by edges that are stated both ways
Chained(anchors, edges, hints) == Down(anchors, edges \cap hints)
\* Entities for which everything above them, as far as they point, is in order
Sound(ents, anchors, edges, hints, fine) ==
    {e \in ents : LET above == Up({e} , hints) IN
        /\ e \in Chained(anchors, edges, hints)
        /\ \A a \in above : a \in fine /\ \A h \in hints : h[2] = a => h \in edges
        \* an anchor that points at itself in the end is left open
        /\ \A a \in above \cap anchors : \A h \in hints : h[2] = a => a \notin Up({h[1]}, hints)}
=============================================================================
