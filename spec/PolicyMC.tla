------------------------------- MODULE PolicyMC -------------------------------
(* Every short chain of small policies is combined and applied, step by step *)
EXTENDS Policy, TLC, Json

CONSTANTS Atoms, MaxOps, MaxLen, Superset

Sets == (SUBSET Atoms) \ {{}}
One == {[many |-> FALSE, s |-> {a}] : a \in Atoms}
Many == {[many |-> TRUE, s |-> x] : x \in Sets}
OpVals(o) == CASE o = "essential" -> {True, False}
               [] o = "value" -> One \cup Many
               [] o = "default" -> One \cup Many
               [] OTHER -> Many
OpSets == {x \in SUBSET Operators : Cardinality(x) <= MaxOps}
AllVals == UNION {OpVals(o) : o \in Operators}
Pols == UNION {{f \in [os -> AllVals] : \A o \in os : f[o] \in OpVals(o)} : os \in OpSets}
Metas == {Nothing} \cup One \cup Many \cup {[many |-> TRUE, s |-> {}]}

VARIABLES ps, meta, acc, result
vars == <<ps, meta, acc, result>>

None == [ok |-> FALSE, m |-> [many |-> FALSE, s |-> {"none"}]]
Init == ps = <<>> /\ meta = Nothing /\ acc = Good(<<>>) /\ result = None
Down == /\ Len(ps) < MaxLen /\ acc.ok = "yes" /\ result = None
        /\ \E p \in Pols :
             /\ ps' = Append(ps, p)
             /\ acc' = (IF ps = <<>> THEN Good(p) ELSE CombineWith(acc.pol, p, Superset))
        /\ UNCHANGED <<meta, result>>
Use == /\ acc.ok = "yes" /\ result = None
       /\ meta' \in Metas
       /\ result' = Apply(acc.pol, meta') /\ UNCHANGED <<ps, acc>>
Next == Down \/ Use
Spec == Init /\ [][Next]_vars

\* What comes out complies with what each and every superior demanded
Sound == result.ok => \A i \in 1..Len(ps) : Complies(ps[i], result.m) \/ ~Consistent(ps[i])
\* Applying it again makes no difference
Idempotent == result.ok => Apply(acc.pol, result.m) = result
\* What it takes to be refused: policies that one after the other are combined never get lost
NothingLost == acc.ok = "yes" /\ ps # <<>> => UNION {DOMAIN ps[i] : i \in 1..Len(ps)} \ {"essential"} \subseteq DOMAIN acc.pol
\* A subordinate can only make it harder: what is accepted with all is accepted with fewer, if
\* nothing is added
NarrowsOnly ==
    (result.ok /\ Len(ps) > 1 /\ \A i \in 1..Len(ps) : DOMAIN ps[i] \cap {"value", "add", "default"} = {})
      => \A i \in 1..Len(ps) : Apply(ps[i], meta).ok
\* Metadata that complies from the start is left as it is
LeftAlone ==
    (result # None /\ meta.s # {} /\ \A i \in 1..Len(ps) : Complies(ps[i], meta)
      /\ ~({"add", "one_of"} \subseteq DOMAIN acc.pol))
      => result.ok /\ result.m.s = meta.s
\* The cases to run: what to combine
Emit == (Len(ps) = MaxLen /\ result = None) => PrintT("CASE " \o ToJson(
           [ps |-> [i \in 1..Len(ps) |-> [o \in DOMAIN ps[i] |-> ps[i][o]]]]))
=============================================================================
