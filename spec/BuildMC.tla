-------------------------------- MODULE BuildMC ---------------------------------
(* The way it has to be implemented: configurations refer to objects, some of them the same,   *)
(* and building an entity has to copy them. With Copies = FALSE the entities have the objects  *)
(* themselves, and what is done to one happens to others too.                                  *)
EXTENDS Build, TLC
CONSTANTS Ents, Anchors, Copies
VARIABLES heap,  \* The objects: sets of anchors
          ref,   \* The object that each entity that has been built uses
          want   \* What each entity is meant to trust
vars == <<heap, ref, want>>
Objects == {"default", "given"}
Init == heap = [o \in Objects |-> {}] /\ ref = [e \in {} |-> ""] /\ want = [e \in {} |-> {}]
Built == DOMAIN ref
Config(a) == [eps |-> {}, srv |-> {}, fun |-> {}, anchors |-> a, hints |-> <<>>, marks |-> <<>>, subs |-> {}, pols |-> {}, org |-> "",
              delta |-> 0, verify |-> TRUE, life |-> {}]
Give == \E a \in SUBSET Anchors : Built = {} /\ heap' = [heap EXCEPT !["given"] = a] /\ UNCHANGED <<ref, want>>
Make == \E e \in Ents \ Built, o \in Objects :
          /\ ref' = [x \in Built \cup {e} |-> IF x = e THEN (IF Copies THEN e ELSE o) ELSE ref[x]]
          /\ heap' = [x \in DOMAIN heap \cup (IF Copies THEN {e} ELSE {}) |-> IF x = e THEN heap[o] ELSE heap[x]]
          /\ want' = [x \in Built \cup {e} |-> IF x = e THEN Fresh(Config(heap[o])) ELSE want[x]]
Do == \E e \in Built, a \in Anchors :
          /\ heap' = [heap EXCEPT ![ref[e]] = @ \cup {a}]
          /\ want' = [want EXCEPT ![e] = Effect(@, "anchor", a)] /\ UNCHANGED ref
Next == Give \/ Make \/ Do
Spec == Init /\ [][Next]_vars
\* Everyone trusts those that it was told to trust and no one else
OnlyItsOwn == \A e \in Built : heap[ref[e]] = want[e].anchors
\* and what was given remains what it was
GivenStays == [][Built # {} => (heap'["given"] = heap["given"] /\ heap'["default"] = heap["default"])]_vars
=============================================================================
