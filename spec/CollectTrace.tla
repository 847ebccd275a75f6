----------------------------- MODULE CollectTrace -----------------------------
(* A collecting entity's history: collect, ask for (stored) trust chains or  *)
(* metadata, while time passes and the federation changes.                   *)
(* docs: everything that was ever served, in order. Step s saw those         *)
(* numbered s.from+1..s.to being served.                                     *)
EXTENDS Collect, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l
vars == <<t, l>>
Steps == Trace[t].steps
Docs == Trace[t].docs
Delta == Trace[t].delta

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Is(d, type, iss, sub) == d.type = type /\ d.iss = iss /\ d.sub = sub
Served(s, type, iss, sub) == {n \in s.from + 1 .. s.to : Is(Docs[n], type, iss, sub)}
Earlier(s, type, iss, sub) == {n \in 1 .. s.from : Is(Docs[n], type, iss, sub)}
\* What the federation says now
Truth(s, id) == s.truth[id]
EntIds == DOMAIN Trace[t].ids
TrueHints(s, id) ==
    LET c == Earlier(s, "ec", id, id) IN
    IF c # {} /\ MustReuse(Docs[Max(c)], s.end, Delta) THEN Docs[Max(c)].hints
    ELSE Truth(s, id).hints
Expected(s) == LET h == [id \in EntIds |-> TrueHints(s, id)]
               IN IF s.override = <<>> THEN h ELSE [h EXCEPT ![s.leaf] = s.override]

\* can everything that is needed be had?
HasES(s, iss, sub) ==
    \/ LET c == Earlier(s, "es", iss, sub) IN c # {} /\ MustReuse(Docs[Max(c)], s.end, Delta)
    \/ sub \in Range(Truth(s, iss).subs)
    \/ iss = sub
\* time passes while collecting. Nothing is said when something gets outdated meanwhile.
Boundary(s) == \E n \in 1..s.from : Docs[n].exp - Delta \in s.now .. s.end
Available(s) ==
    LET h == Expected(s) IN
    /\ ~Boundary(s)
    /\ \A n \in s.from + 1 .. s.to : Docs[n].exp >= s.end
    /\ \A id \in NeededEC(h, s.stop, s.leaf) : Truth(s, id).up
    /\ \A e \in NeededES(h, s.stop, s.leaf) : HasES(s, e[1], e[2])

ChainEdges(c) == [i \in 1..Len(c) |-> <<Docs[c[i]].iss, Docs[c[i]].sub>>]
StatementType(d) == IF d.iss = d.sub THEN "ec" ELSE "es"

FreshDoc(s, n) == n \in s.from + 1 .. s.to \/ Usable(Docs[n], s.now, Delta)

\* what was read when there was a copy that can be used for a while
Refetched(s) ==
    {n \in {n \in s.from + 1 .. s.to : Docs[n].type \in {"ec", "es"}} :
        LET e == {m \in 1 .. n - 1 : Is(Docs[m], Docs[n].type, Docs[n].iss, Docs[n].sub)}
        IN e # {} /\ MustReuse(Docs[Max(e)], s.end, Delta) /\ ~(s.given /\ Docs[n].sub = s.leaf)}

JudgeCollect(s) ==
    LET o == s.obs
        got == {ChainEdges(o.chains[i]) : i \in 1..Len(o.chains)}
        want == {Edges(s.leaf, p) : p \in Paths(Expected(s), s.stop, s.leaf)}
        all == UNION {Range(o.chains[i]) : i \in 1..Len(o.chains)}
    IN  (IF Available(s) /\ ~o.ok THEN {"failed"} ELSE {}) \cup
        (IF Available(s) /\ o.ok /\ got # want THEN {"paths"} ELSE {}) \cup
        (IF Available(s) /\ o.ok /\ Len(o.chains) # Cardinality(got) THEN {"duplicates"} ELSE {}) \cup
        (IF o.ok /\ \E n \in all : n = 0 THEN {"made_up"} ELSE
         IF o.ok /\ \E n \in all : ~FreshDoc(s, n) THEN {"outdated"} ELSE {}) \cup
        (IF o.ok /\ ~s.given /\ o.ec # 0 /\ ~FreshDoc(s, o.ec) THEN {"outdated"} ELSE {}) \cup
        (IF o.ok /\ o.ec # 0 /\ ~Is(Docs[o.ec], "ec", s.leaf, s.leaf) THEN {"wrong_leaf"} ELSE {}) \cup
        (IF Available(s) /\ o.ok /\ o.ec = 0 /\ ~s.given THEN {"no_leaf"} ELSE {}) \cup
        (IF ~Boundary(s) /\ Refetched(s) # {} THEN {"refetched"} ELSE {})

\* Trust chains handed out: from store or new
MinExp(c) == CHOOSE e \in {Docs[n].exp : n \in Range(c)} : \A n \in Range(c) : e <= Docs[n].exp
Prev(s, k) ==
    LET ks == {j \in 1..k - 1 : Steps[j].op \in {"chains", "metadata"} /\ Steps[j].leaf = s.leaf
                                /\ Steps[j].obs.ok /\ Steps[j].obs.chains # <<>>}
    IN  IF ks = {} THEN <<>> ELSE Steps[Max(ks)].obs.chains
StillValid(s, k) == {Range(tc.docs) : tc \in {tc \in Range(Prev(s, k)) : tc.exp >= s.now}}
\* the leaf's own configuration comes last
JudgeChains(s, k) ==
    LET o == s.obs
        got == {ChainEdges(o.chains[i].docs) : i \in 1..Len(o.chains)}
        stored == StillValid(s, k)
        want == {Append(Edges(s.leaf, p), <<s.leaf, s.leaf>>) :
                    p \in {p \in Paths(Expected(s), "", s.leaf) : p[Len(p)] \in Range(Trace[t].anchors)}}
        all == UNION {Range(o.chains[i].docs) : i \in 1..Len(o.chains)}
    IN
    IF ~o.ok THEN (IF Available(s) \/ stored # {} THEN {"failed"} ELSE {})
    ELSE IF 0 \in all THEN {"made_up"}
    ELSE
    UNION {LET tc == o.chains[i] IN
           (IF \E n \in Range(tc.docs) : Docs[n].exp < s.now THEN {"expired"} ELSE {}) \cup
           (IF tc.exp # MinExp(tc.docs) THEN {"exp"} ELSE {}) \cup
           (IF s.leaf # Docs[tc.docs[Len(tc.docs)]].sub THEN {"wrong_leaf"} ELSE {}) \cup
           (IF Docs[tc.docs[1]].iss \notin Range(Trace[t].anchors) THEN {"anchor"} ELSE {})
           : i \in 1..Len(o.chains)} \cup
    (IF stored # {} /\ {Range(tc.docs) : tc \in Range(o.chains)} = stored THEN {}
     ELSE IF Available(s) /\ got # want THEN {"paths"} ELSE {}) \cup
    (IF stored = {} /\ \E n \in all : ~FreshDoc(s, n) THEN {"outdated"} ELSE {})

\* metadata that was handed out came with the configuration numbered obs.n
JudgeMetadata(s, k) ==
    JudgeChains(s, k) \cup
    (IF ~s.obs.ok THEN {}
     ELSE IF s.obs.n = 0 THEN (IF s.obs.chains # <<>> THEN {"no_metadata"} ELSE {})
     ELSE IF Docs[s.obs.n].exp < s.now THEN {"expired"}
     ELSE IF Docs[s.obs.n].sub # s.leaf THEN {"wrong_leaf"}
     ELSE IF \A i \in 1..Len(s.obs.chains) : s.obs.n \notin Range(s.obs.chains[i].docs) THEN {"unverified"}
     ELSE {})

Judge(s, k) == IF s.op = "collect" THEN JudgeCollect(s)
               ELSE IF s.op = "chains" THEN JudgeChains(s, k)
               ELSE IF s.op = "metadata" THEN JudgeMetadata(s, k) ELSE {}

Init == t \in 1..Len(Trace) /\ l = 0
Next ==
    /\ l < Len(Steps)
    /\ l' = l + 1
    /\ LET c == Judge(Steps[l + 1], l + 1) IN
       IF c = {} THEN TRUE
       ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, obs |-> Steps[l + 1].obs]))
    /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
