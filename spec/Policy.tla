-------------------------------- MODULE Policy --------------------------------
(* Metadata policies: how the policies that the superiors of a chain state   *)
(* are combined, and how the result is applied to the metadata of the leaf.  *)
(*                                                                           *)
(* A value is [many, s]: a list with the members s, or the single member of  *)
(* s.  The policy for a claim is a function from operators to values. The    *)
(* metadata for a claim is a value, or Nothing.                              *)
EXTENDS Naturals, Sequences, FiniteSets

Range(q) == {q[i] : i \in DOMAIN q}
Operators == {"value", "add", "default", "one_of", "subset_of", "superset_of", "essential"}
Nothing == [many |-> FALSE, s |-> {}]
True == [many |-> FALSE, s |-> {"true"}]
False == [many |-> FALSE, s |-> {"false"}]
Present(m) == m # Nothing

Bad == [ok |-> "no", pol |-> <<>>]
Good(p) == [ok |-> "yes", pol |-> p]
\* Nothing is said about whether these can be combined
Unclear == [ok |-> "maybe", pol |-> <<>>]

Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Known(p) == Restrict(p, Operators)

-----------------------------------------------------------------------------
(* Does the metadata m comply with the policy p?                             *)
Complies(p, m) ==
    \A o \in DOMAIN p :
       CASE o = "value" -> m = p[o]
         [] o = "one_of" -> Present(m) => ~m.many /\ m.s \subseteq p[o].s
         [] o = "subset_of" -> Present(m) => m.s \subseteq p[o].s
         [] o = "superset_of" -> Present(m) => p[o].s \subseteq m.s
         [] o = "add" -> p[o].s \subseteq m.s
         [] o = "default" -> Present(m)
         [] o = "essential" -> p[o] = True => Present(m)
         [] OTHER -> TRUE

(* Can the operators of one policy be fulfilled at the same time?            *)
Coherent(p) ==
    LET h(o) == o \in DOMAIN p IN
    /\ h("one_of") => ~h("subset_of") /\ ~h("superset_of")
    /\ h("superset_of") /\ h("subset_of") => p["superset_of"].s \subseteq p["subset_of"].s
    /\ h("default") /\ h("subset_of") => p["default"].s \subseteq p["subset_of"].s
    /\ h("default") /\ h("superset_of") => p["superset_of"].s \subseteq p["default"].s
    /\ h("default") /\ h("one_of") => p["default"].s \subseteq p["one_of"].s
    /\ h("add") /\ h("subset_of") => p["add"].s \subseteq p["subset_of"].s

\* ... the value it sets included
Consistent(p) ==
    /\ Coherent(p)
    /\ "value" \in DOMAIN p => Complies(Restrict(p, {"one_of", "subset_of", "superset_of", "add"}), p["value"])
\* Nothing is said about an "add" that doesn't give what a "superset_of" demands
Clear(p) == Coherent(p) /\ ({"superset_of", "add"} \subseteq DOMAIN p => p["superset_of"].s \subseteq p["add"].s)

(* An operator that both state                                               *)
Merge(o, v, w, superset) ==
    CASE o \in {"one_of", "subset_of"} -> [many |-> TRUE, s |-> v.s \cap w.s]
      [] o = "superset_of" -> [many |-> TRUE, s |-> IF superset = "union" THEN v.s \cup w.s ELSE v.s \cap w.s]
      [] o = "add" -> [many |-> TRUE, s |-> v.s \cup w.s]
      [] o = "essential" -> IF True \in {v, w} THEN True ELSE False
      [] OTHER -> v
Mergeable(o, v, w, superset) ==
    CASE o \in {"value", "default"} -> v = w
      [] o = "essential" -> ~(v = True /\ w = False)
      [] OTHER -> Merge(o, v, w, superset).s # {}

(* What the superior p and the subordinate q say about a claim, combined.    *)
(* superset: how two superset_of are combined                                *)
CombineWith(p, q, superset) ==
    IF DOMAIN p = {} THEN (IF Clear(q) THEN Good(q) ELSE Unclear)
    ELSE IF DOMAIN q = {} THEN (IF Clear(p) THEN Good(p) ELSE Unclear)
    ELSE IF "value" \in DOMAIN p
    THEN IF "value" \in DOMAIN q
         THEN IF p["value"] # q["value"] THEN Bad
              ELSE IF DOMAIN q = {"value"} /\ DOMAIN p = {"value"} THEN Good(p) ELSE Unclear
         ELSE IF DOMAIN q = {"essential"}
         THEN IF DOMAIN p = {"value"} THEN Good(p) ELSE Unclear
         ELSE IF Complies(q, p["value"]) THEN Unclear ELSE Bad
    ELSE LET both == DOMAIN p \cap DOMAIN q
             all == DOMAIN p \cup DOMAIN q
             r == [o \in all |-> IF o \in both THEN Merge(o, p[o], q[o], superset)
                                 ELSE IF o \in DOMAIN p THEN p[o] ELSE q[o]]
         IN IF \E o \in both : ~Mergeable(o, p[o], q[o], superset) THEN Bad
            ELSE IF ~Coherent(r) THEN Bad
            ELSE IF ~Clear(r) THEN Unclear
            ELSE Good(r)
Combine(p, q) == CombineWith(p, q, "union")

RECURSIVE FoldWith(_, _, _, _)
FoldWith(acc, ps, i, superset) ==
    IF i > Len(ps) \/ acc.ok # "yes" THEN acc
    ELSE FoldWith(CombineWith(acc.pol, ps[i], superset), ps, i + 1, superset)
\* policies: from the trust anchor downwards
CombineAllWith(ps, superset) ==
    IF ps = <<>> THEN Good(<<>>) ELSE FoldWith(Good(ps[1]), ps, 2, superset)
CombineAll(ps) == CombineAllWith(ps, "union")

-----------------------------------------------------------------------------
(* Applying a policy: the operators one after the other. The result is       *)
(* [ok, m]                                                                   *)
Err == [ok |-> FALSE, m |-> Nothing]
Res(m) == [ok |-> TRUE, m |-> m]

ApplyOp(o, p, r) ==
    IF ~r.ok \/ o \notin DOMAIN p THEN r
    ELSE LET m == r.m v == p[o] IN
       CASE o = "add" -> Res(IF Present(m) THEN [many |-> TRUE, s |-> m.s \cup v.s] ELSE v)
         [] o = "default" -> Res(IF Present(m) THEN m ELSE v)
         [] o = "one_of" -> IF Present(m) /\ (m.many \/ ~(m.s \subseteq v.s)) THEN Err ELSE r
         [] o = "subset_of" ->
               IF ~Present(m) THEN r
               ELSE IF m.s \cap v.s = {} THEN Err
               ELSE Res([m EXCEPT !.s = m.s \cap v.s])
         [] o = "superset_of" -> IF Present(m) /\ ~(v.s \subseteq m.s) THEN Err ELSE r
         [] o = "essential" -> IF v = True /\ ~Present(m) THEN Err ELSE r
         [] OTHER -> r

Order == <<"add", "default", "one_of", "subset_of", "superset_of", "essential">>
RECURSIVE ApplyFrom(_, _, _)
ApplyFrom(i, p, r) == IF i > Len(Order) THEN r ELSE ApplyFrom(i + 1, p, ApplyOp(Order[i], p, r))

Apply(p, m) ==
    IF "value" \in DOMAIN p
    THEN IF Complies(Restrict(p, {"one_of", "subset_of", "superset_of", "add"}), p["value"])
         THEN Res(p["value"]) ELSE Err
    ELSE ApplyFrom(1, p, Res(m))
=============================================================================
