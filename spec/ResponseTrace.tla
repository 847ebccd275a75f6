------------------------------ MODULE ResponseTrace ------------------------------
EXTENDS Response, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, now, ws, stored, cred
vars == <<t, l, now, ws, stored, cred>>
T == Trace[t]
Steps == T.steps
World(i) == T.worlds[i]
\* Old statements may be used until they expire, each on its own, hence anything there has been
RECURSIVE Ever(_)
Ever(n) == IF n = 0 THEN [Empty EXCEPT !.known = World(1).known]
           ELSE LET w == Ever(n - 1) IN IF n \in ws THEN [w EXCEPT !.ents = @ \o World(n).ents, !.edges = @ \o World(n).edges] ELSE w
All == Ever(Len(T.worlds))
Own == Range(T.own)
SetOf(tv) == {x.v : x \in tv}
Static == ws = {1}
Surroundings == Static /\ Sound(World(1), T.me) /\ Sound(World(1), "op")
Must(r) == /\ Acceptance(World(1), r, T.me, now) /\ r.exp > now /\ T.type \in Range(r.types) /\ Surroundings
           /\ Cardinality(PathsTo(World(1), T.me, r.anchor)) = 1
After(s) == IF s.stored = <<"-">> THEN [none |-> TRUE, md |-> {}] ELSE [none |-> FALSE, md |-> Range(s.stored)]
Respond(s) ==
    LET r == s.resp
        o == s.obs
        gs == Mine(All, r, T.me) IN
    IF o.ok
    THEN (IF Proper(r, T.me, now) /\ Authentic(All, r) THEN {} ELSE {"accepted_without_trust"})
         \cup (IF \E g \in gs : Range(o.md) = SetOf(Adopted(r, g, T.type, Own)) THEN {} ELSE {"wrong_metadata"})
         \cup (IF After(s) = [none |-> FALSE, md |-> Range(o.md)] THEN {} ELSE {"not_kept"})
         \cup (IF o.others = <<>> THEN {} ELSE {"not_what_was_registered"})
    ELSE (IF Must(r) THEN {"refused"} ELSE {}) \cup (IF After(s) # stored THEN {"refused_but_changed"} ELSE {})
\* The whole registration: a request to the real provider and the response from it
Register(s) ==
    LET o == s.obs
        ops == [All EXCEPT !.known = T.opknown]
        gs(w) == {g \in GrantsOf(w, T.me) : g.anchor = o.anchor}
        asop == [World(1) EXCEPT !.known = T.opknown]
        chosen == Best(T.prio, GrantsOf(asop, T.me))
        must == /\ Surroundings /\ chosen # {}
                /\ \A g \in chosen : /\ g.anchor \in Range(T.worlds[1].known)
                                     /\ Cardinality(PathsTo(World(1), T.me, g.anchor)) = 1
                                     /\ \E h \in GrantsOf(World(1), "op") : h.anchor = g.anchor IN
    IF o.ok
    THEN (IF o.sent /\ o.anchor \in Range(T.worlds[1].known) \cap Range(T.opknown) /\ gs(ops) # {}
             /\ \E g \in GrantsOf(All, "op") : g.anchor = o.anchor THEN {} ELSE {"accepted_without_trust"})
         \cup (IF o.same THEN {} ELSE {"credentials_differ"})
         \cup (IF o.others = <<>> THEN {} ELSE {"not_what_was_registered"})
         \cup (IF \E g \in gs(ops) : Range(o.op) = SetOf({x \in Own \cup g.add : x.t = T.type}) THEN {} ELSE {"wrong_metadata"})
         \cup (IF Surroundings /\ Range(o.md) # Range(o.op) THEN {"metadata_differs"} ELSE {})
         \cup (IF After(s) = [none |-> FALSE, md |-> Range(o.md)] THEN {} ELSE {"not_kept"})
    ELSE (IF must THEN {"refused"} ELSE {}) \cup (IF After(s) # stored THEN {"refused_but_changed"} ELSE {})
\* What nobody has signed is no registration, whatever the status that it comes with. What comes with another status
\* than that it went well need not be one.
Good == {200, 201}
Adoptable(r, after) == Proper(r, T.me, now) /\ Authentic(All, r) /\ ~after.none
                       /\ \E g \in Mine(All, r, T.me) : after.md = SetOf(Adopted(r, g, T.type, Own))
Answered(s) ==
    LET a == s.answer IN
    IF a.body = "plain" \/ a.status \in 300..399 \/ a.status >= 500
    THEN (IF s.obs.ok THEN {"accepted_without_trust"} ELSE {}) \cup (IF After(s) # stored THEN {"refused_but_changed"} ELSE {})
    ELSE IF a.status \notin Good
    THEN IF a.body = "crafted" => After(s) = stored \/ Adoptable(s.resp, After(s)) THEN {} ELSE {"accepted_without_trust"}
    ELSE IF a.body = "crafted" THEN Respond(s) ELSE Register(s)
\* Asking anew may make the client forget what it was called
Kept(s) == IF s.obs.ok \/ s.cred = cred \/ (s.op = "register" /\ s.cred = T.cred) THEN {} ELSE {"credentials_changed"}
Init == t \in 1..Len(Trace) /\ l = 0 /\ now = 0 /\ ws = {1} /\ stored = [none |-> TRUE, md |-> {}]
        /\ cred = T.cred
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1]
           c == IF s.op = "respond" THEN Respond(s) \cup Kept(s) ELSE IF s.op = "register" THEN Answered(s) \cup Kept(s) ELSE {} IN
       /\ now' = IF s.op = "tick" THEN now + s.d ELSE now
       /\ ws' = IF s.op = "change" THEN ws \cup {s.world} ELSE ws
       /\ stored' = IF s.op \in {"respond", "register"} THEN After(s) ELSE stored
       /\ cred' = IF s.op \in {"respond", "register"} THEN s.cred ELSE cred
       /\ IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, now |-> now, ws |-> ws,
                                                            before |-> stored, obs |-> s]))
Spec == Init /\ [][Next]_vars
=============================================================================
