------------------------------ MODULE PolicyTrace ------------------------------
(* What the code made of policies, judged.                                   *)
(*   combine: two policies for one claim combined                            *)
(*   apply:   a policy for one claim applied to metadata                     *)
(*   chain:   all policies and metadata of the statements of a chain, for    *)
(*            several entity types and claims, applied to the leaf's metadata *)
EXTENDS Policy, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
Steps == Trace[t].steps

Pol(seq) == [o \in {seq[i].o : i \in DOMAIN seq} |->
               LET e == CHOOSE x \in Range(seq) : x.o = o IN [many |-> e.many, s |-> Range(e.v)]]
Md(m) == IF m.has THEN [many |-> m.many, s |-> Range(m.v)] ELSE Nothing

SamePolicy(p, q) ==
    LET P == IF "value" \in DOMAIN p THEN Restrict(p, Operators \ {"essential"}) ELSE p
        Q == IF "value" \in DOMAIN q THEN Restrict(q, Operators \ {"essential"}) ELSE q
    IN /\ DOMAIN P = DOMAIN Q
       /\ \A o \in DOMAIN P : P[o].s = Q[o].s /\ (o \in {"value", "default"} => P[o].many = Q[o].many)

\* --- combine
CombineOK(c, obs) ==
    CASE c.ok = "no" -> ~obs.ok
      [] c.ok = "yes" -> obs.ok /\ SamePolicy(c.pol, Known(Pol(obs.pol)))
      [] OTHER -> TRUE
TwoSupersets(ps) == Cardinality({i \in 1..Len(ps) : "superset_of" \in DOMAIN ps[i]}) > 1
\* A superior that sets a value it doesn't allow itself: nothing below it can
\* make that acceptable
Weakened(p, s) ==
    /\ "value" \in DOMAIN p
    /\ s.obs.ok
    /\ ~Apply(p, Nothing).ok
    /\ Apply(Known(Pol(s.obs.pol)), Nothing).ok
JudgeCombine(s) ==
    LET p == Known(Pol(s.p)) q == Known(Pol(s.q)) IN
    IF Weakened(p, s) THEN {"superior_weakened"}
    ELSE IF CombineOK(Combine(p, q), s.obs) THEN {}
    ELSE IF TwoSupersets(<<p, q>>) /\ CombineOK(CombineWith(p, q, "intersection"), s.obs)
    THEN {"superset_intersection"}
    ELSE {"combination"}

\* --- apply
JudgeApply(s) ==
    LET p == Known(Pol(s.p))
        r == Apply(p, Md(s.m))
        o == Md(s.obs.m) IN
    (IF r.ok # s.obs.ok THEN {IF r.ok THEN "refused" ELSE "accepted"} ELSE {})
    \cup (IF s.obs.ok /\ Consistent(p) /\ ~Complies(p, o) THEN {"not_compliant"} ELSE {})
    \cup (IF r.ok /\ s.obs.ok /\ r.m # o THEN {"wrong_value"} ELSE {})
    \cup (IF s.obs.ok /\ ~s.obs.others THEN {"other_claims"} ELSE {})

\* --- chain
Entries(s, i, ty, kind) == {e \in Range(s.sts[i]) : e.t = ty /\ e.kind = kind}
Claims(E) == {e.c : e \in E}
\* in one statement there is both metadata and policy for the claim
Clash(s, ty) == \E i \in 1..Len(s.sts) : Claims(Entries(s, i, ty, "policy")) \cap Claims(Entries(s, i, ty, "md")) # {}
RECURSIVE PoliciesFrom(_, _, _, _)
PoliciesFrom(s, i, ty, c) ==
    IF i > Len(s.sts) THEN <<>>
    ELSE LET E == {e \in Entries(s, i, ty, "policy") : e.c = c} IN
         (IF E = {} THEN <<>> ELSE <<Known(Pol((CHOOSE e \in E : TRUE).p))>>) \o PoliciesFrom(s, i + 1, ty, c)
SupMd(s, ty, c) == {Md(e.m) : e \in {x \in UNION {Entries(s, i, ty, "md") : i \in 1..Len(s.sts)} : x.c = c}}
Own(s, ty, c) == LET E == {e \in Range(s.ec) : e.t = ty /\ e.c = c} IN
                 IF E = {} THEN Nothing ELSE Md((CHOOSE e \in E : TRUE).m)
Got(s, ty, c) == LET E == {e \in Range(s.obs.md) : e.t = ty /\ e.c = c} IN
                 IF E = {} THEN Nothing ELSE Md((CHOOSE e \in E : TRUE).m)
AllClaims(s, ty) ==
    Claims({e \in Range(s.ec) \cup Range(s.obs.md) \cup UNION {Range(s.sts[i]) : i \in 1..Len(s.sts)} : e.t = ty})

\* [v: "refuse"/"exact"/"any", m]
ClaimVerdict(s, ty, c, superset) ==
    LET ps == PoliciesFrom(s, 1, ty, c)
        sm == SupMd(s, ty, c)
        comb == CombineAllWith(ps, superset)
        base == IF sm # {} THEN CHOOSE x \in sm : TRUE ELSE Own(s, ty, c)
        r == Apply(comb.pol, base)
    IN IF Cardinality(sm) > 1 THEN [v |-> "refuse", m |-> Nothing]
       ELSE CASE comb.ok = "no" -> [v |-> "refuse", m |-> Nothing]
              [] comb.ok = "maybe" -> [v |-> "any", m |-> Nothing]
              [] ~r.ok -> [v |-> "refuse", m |-> Nothing]
              [] sm # {} /\ r.m # base -> [v |-> "any", m |-> Nothing]
              [] OTHER -> [v |-> "exact", m |-> r.m]
JudgeType(s, ty, superset) ==
    LET cs == AllClaims(s, ty) IN
    (IF Clash(s, ty) THEN {"clash"} ELSE {})
    \cup (IF \E c \in cs : ClaimVerdict(s, ty, c, superset).v = "refuse" THEN {"policy_broken"} ELSE {})
    \cup (IF \E c \in cs : ClaimVerdict(s, ty, c, superset).v = "exact"
                            /\ ClaimVerdict(s, ty, c, superset).m # Got(s, ty, c) THEN {"wrong_metadata"} ELSE {})
    \cup (IF \E c \in cs : ClaimVerdict(s, ty, c, superset).v = "any" /\ Cardinality(SupMd(s, ty, c)) = 0
                            /\ \E i \in 1..Len(PoliciesFrom(s, 1, ty, c)) :
                                  LET q == PoliciesFrom(s, 1, ty, c)[i]
                                      p == IF superset = "union" THEN q ELSE Restrict(q, Operators \ {"superset_of"}) IN Consistent(p) /\ ~Complies(p, Got(s, ty, c))
          THEN {"not_compliant"} ELSE {})
Refusal(s, ty, superset) == Clash(s, ty) \/ \E c \in AllClaims(s, ty) : ClaimVerdict(s, ty, c, superset).v = "refuse"
Certain(s, ty, superset) == ~Clash(s, ty) /\ \A c \in AllClaims(s, ty) : ClaimVerdict(s, ty, c, superset).v = "exact"
JudgeWith(s, superset) ==
    LET tys == Range(s.types) IN
    (IF ~s.obs.unchanged THEN {"statement_changed"} ELSE {})
    \cup (IF ~s.obs.recorded THEN {"another_policy_recorded"} ELSE {})
    \cup (IF s.obs.ok
          THEN UNION {JudgeType(s, ty, superset) : ty \in tys}
               \cup (IF {e.t : e \in Range(s.obs.md)} \ tys # {} THEN {"extra_type"} ELSE {})
          ELSE IF \A ty \in tys : Certain(s, ty, superset) THEN {"refused"} ELSE {})
JudgeChain(s) ==
    LET u == JudgeWith(s, "union") IN
    IF u = {} THEN {}
    ELSE IF JudgeWith(s, "intersection") = {} /\
            \E ty \in Range(s.types) : \E c \in AllClaims(s, ty) : TwoSupersets(PoliciesFrom(s, 1, ty, c))
    THEN {"superset_intersection"} ELSE u

Judge(s) == CASE s.op = "combine" -> JudgeCombine(s) [] s.op = "apply" -> JudgeApply(s) [] OTHER -> JudgeChain(s)

Init == t \in 1..Len(Trace) /\ l = 0
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET c == Judge(Steps[l + 1]) IN
       IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, obs |-> Steps[l + 1]]))
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
