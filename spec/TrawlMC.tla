--------------------------------- MODULE TrawlMC ---------------------------------
(* The search, branch by branch, in every small federation, loops included. The branches may be *)
(* taken in any order, and what one finds below an entity does not depend on how one got there. *)
EXTENDS Trawl, TLC
CONSTANTS Auth, Leaves
VARIABLES edges, agenda, found, root
vars == <<edges, agenda, found, root>>
Nodes == Auth \cup Leaves
Pairs == {p \in Auth \X Nodes : p[1] # p[2]}
Init == edges \in SUBSET Pairs /\ root \in Nodes /\ agenda = {<<root>>} /\ found = {}
Inter(n) == {c \in Auth : <<n, c>> \in edges /\ \E d \in Nodes : <<c, d>> \in edges}
Visit == \E p \in agenda :
    LET n == p[Len(p)] IN
    /\ found' = found \cup ({n} \cap Leaves) \cup {c \in Leaves : <<n, c>> \in edges}
    /\ agenda' = (agenda \ {p}) \cup {Append(p, c) : c \in {x \in Inter(n) : \A i \in DOMAIN p : p[i] # x}}
    /\ UNCHANGED <<edges, root>>
Next == Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* Exactly what there is below the root, and no more on the way
Complete == agenda = {} => found = Found(root, edges, edges, Leaves)
Honest == found \subseteq Down({root}, edges)
Bounded == \A p \in agenda : Len(p) <= Cardinality(Nodes)
Ends == <>(agenda = {})
=============================================================================
