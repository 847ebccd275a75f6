---------------------------- MODULE AuthorityTrace ----------------------------
EXTENDS Authority, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, reg, pols, net
Steps == Trace[t].steps
TV(q) == {[t |-> x.t, v |-> x.v] : x \in Range(q)}
Rec(r) == [sub |-> r.sub, jwks |-> Range(r.jwks), types |-> Range(r.types), im |-> r.im, hints |-> r.hints,
           md |-> TV(r.md), mdp |-> TV(r.mdp), cons |-> r.cons, ext |-> Range(r.ext)]
Pol(p) == [id |-> p.id, hasmd |-> p.hasmd, md |-> TV(p.md), hasmdp |-> p.hasmdp, mdp |-> TV(p.mdp)]

JudgeFetch(s) ==
    IF s.iss \notin {"", "me"} \/ ~Registered(reg, s.sub) THEN (IF s.obs.ok THEN {"stated"} ELSE {})
    ELSE IF ~s.obs.ok THEN {"not_stated"}
    ELSE LET e == Statement(reg, pols, "me", s.sub)
             g == s.obs.st
             o == Open(Info(reg, s.sub), pols) IN
         (IF g.iss # e.iss \/ g.sub # e.sub THEN {"wrong_names"} ELSE {})
         \cup (IF Range(g.jwks) # e.jwks THEN {"wrong_keys"} ELSE {})
         \cup (IF ~o /\ TV(g.md) # e.md THEN {"wrong_metadata"} ELSE {})
         \cup (IF ~o /\ TV(g.mdp) # e.mdp THEN {"wrong_policy"} ELSE {})
         \cup (IF g.hints # e.hints THEN {"wrong_hints"} ELSE {})
         \cup (IF g.cons # e.cons THEN {"wrong_constraints"} ELSE {})
         \cup (IF Range(g.ext) \ e.ext # {} THEN {"more_claims"} ELSE {})
         \cup (IF e.ext \ Range(g.ext) # {} THEN {"lost_claims"} ELSE {})
JudgeAny(s) ==
    (IF s.obs.ok /\ ~s.obs.sig THEN {"signature"} ELSE {})
    \cup (IF s.obs.ok /\ ~s.obs.alive THEN {"not_valid_now"} ELSE {})
    \cup (IF s.obs.ok /\ s.obs.private THEN {"private_keys"} ELSE {})
JudgeSelf(s) ==
    IF ~s.obs.ok THEN {"not_stated"}
    ELSE (IF s.obs.st.iss # "me" \/ s.obs.st.sub # "me" THEN {"wrong_names"} ELSE {})
         \cup (IF Range(s.obs.st.jwks) # Range(s.own) THEN {"wrong_keys"} ELSE {})

\* net: what each subordinate says about itself: [sub, marks, signer, good]. It counts if it is a
\* proper configuration (good) of that subordinate, signed with a key that is registered.
Good(n) == n.good /\ \E r \in reg : r.sub = n.sub /\ n.signer \in r.jwks
Marks == {[sub |-> n.sub, marks |-> Range(n.marks)] : n \in {x \in Range(net) : Good(x)}}
Asks(q) == q.marked \/ q.mark # ""
NetOK == \A r \in reg : \E n \in Range(net) : n.sub = r.sub /\ Good(n)
JudgeList(s) ==
    LET e == Listed(reg, Marks, s.q) IN
    IF ~s.obs.ok THEN (IF Asks(s.q) /\ ~NetOK THEN {} ELSE {"not_listed"})
    ELSE (IF Range(s.obs.subs) \ e # {} THEN {"list_extra"} ELSE {})
         \cup (IF e \ Range(s.obs.subs) # {} THEN {"list_missing"} ELSE {})
         \cup (IF Cardinality(Range(s.obs.subs)) # Len(s.obs.subs) THEN {"list_twice"} ELSE {})
         \* An extended list says more about each: what that one says about itself, and only if that was to be looked at
         \cup (IF \A i \in DOMAIN s.obs.subs : s.obs.about[i].sub = s.obs.subs[i] THEN {} ELSE {"about_another"})
         \cup (IF s.obs.more => \A a \in Range(s.obs.about) : \E m \in Marks : m.sub = a.sub /\ {x \o m.sub : x \in m.marks} = Range(a.marks)
               THEN {} ELSE {"wrong_information"})
Judge(s) ==
    CASE s.op = "fetch" -> JudgeFetch(s) \cup JudgeAny(s)
      [] s.op = "self" -> JudgeSelf(s) \cup JudgeAny(s)
      [] s.op = "list" -> JudgeList(s)
      [] OTHER -> {}

Init == t \in 1..Len(Trace) /\ l = 0 /\ reg = {} /\ pols = {} /\ net = <<>>
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1] IN
       /\ reg' = CASE s.op = "register" -> {x \in reg : x.sub # s.r.sub} \cup {Rec(s.r)}
                   [] s.op = "remove" -> {x \in reg : x.sub # s.sub}
                   [] OTHER -> reg
       /\ pols' = IF s.op = "policy" THEN {x \in pols : x.id # s.p.id} \cup {Pol(s.p)} ELSE pols
       /\ net' = IF s.op = "net" THEN s.net ELSE net
       /\ LET c == Judge(s) \cup (IF s.op \in {"fetch", "self", "list"} /\ s.obs.changed THEN {"registry_changed"} ELSE {}) IN
          IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, obs |-> s, reg |-> reg, pols |-> pols]))
Spec == Init /\ [][Next]_<<t, l, reg, pols, net>>
=============================================================================
