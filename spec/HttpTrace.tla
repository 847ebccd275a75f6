-------------------------------- MODULE HttpTrace --------------------------------
EXTENDS Http, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, reg, changed, marks, now
Steps == Trace[t].steps
R(x) == [id |-> x.id, types |-> Range(x.types), inter |-> x.inter, keys |-> Range(x.keys)]
X(x) == [tid |-> x.tid, sub |-> x.sub, iat |-> x.iat, exp |-> x.exp]
W == LET w == Trace[t].world IN
     [own |-> [t |-> Range(w.own.t), m |-> Range(w.own.m)], life |-> Range(w.life), anchored |-> w.anchored,
      ents |-> {[id |-> e.id, up |-> e.up, keys |-> Range(e.keys), types |-> Range(e.types), marks |-> Range(e.marks)] : e \in Range(w.ents)}]
Body(o) == CASE o.kind = "es" -> [kind |-> "es", iss |-> o.iss, sub |-> o.sub, keys |-> Range(o.keys)]
             [] o.kind = "ids" -> Ids(Range(o.ids))
             [] o.kind = "mark" -> Mark(o)
             [] o.kind = "resolved" -> Resolved(o.sub, Range(o.types))
             [] OTHER -> [kind |-> o.kind]
Json == {"ids", "active", "error"}
\* What came over the wire. Errors and lists are JSON, and said to be
Wire(s) == LET o == s.obs IN
    (IF o.status >= 500 THEN {"server_error"} ELSE {})
    \cup (IF s.method # "GET" \/ (o.status = 200) = (o.kind \in {"es", "ids", "mark", "resolved", "active"}) THEN {} ELSE {"wrong_status"})
    \cup (IF o.kind \in Json /\ o.ctype # "application/json" THEN {"wrong_type"} ELSE {})
    \cup (IF o.kind \in {"es", "mark", "resolved"} /\ ~o.jwt THEN {"wrong_type"} ELSE {})
    \cup (IF o.echo THEN {"echoed"} ELSE {})
Judge(s) ==
    LET q == [srv |-> s.srv, path |-> s.path, p |-> s.p]
        o == s.obs
        b == IF o.kind \in {"error", "page"} THEN Refused ELSE Body(o) IN
    (IF s.how = "client" THEN {} ELSE Wire(s))
    \cup (IF s.odd THEN {} ELSE
          IF b \in Allowed(W, reg, changed, marks, now, q, s.tok) THEN {}
          ELSE IF b = Refused THEN {"refused"} ELSE IF Allowed(W, reg, changed, marks, now, q, s.tok) = {Refused} THEN {"answered"} ELSE {"wrong_answer"})
    \cup (IF o.kind \in {"es", "mark", "resolved"} /\ ~o.sig THEN {"not_signed"} ELSE {})
    \cup (IF o.kind \in {"es", "resolved"} /\ (o.exp <= now \/ o.iat > now) THEN {"not_valid_now"} ELSE {})
    \* Nothing is said that only the one who asks has said
    \cup (IF o.kind \in {"es", "mark", "resolved"} /\ Len(o.extra) > 0 THEN {"extra"} ELSE {})
    \cup (IF {R(x) : x \in Range(s.after.reg)} = reg THEN {} ELSE {"registry_changed"})
    \cup (IF {X(x) : x \in Range(s.after.marks)} = (IF ~s.odd THEN After(W, marks, now, q) ELSE IF b.kind = "mark" THEN marks \cup {X(o)} ELSE marks) THEN {} ELSE {"marks_changed"})
\* Where it says that it can be asked, it can be asked
Announced(s) == LET a == {<<x[1], x[2]>> : x \in Range(s.obs.announced)} IN
    IF s.path = "config" /\ s.obs.kind = "es" /\ a # {<<x, "https://" \o s.srv \o ".example.org/" \o x>> : x \in Paths[s.srv]} THEN {"announced"} ELSE {}
Init == t \in 1..Len(Trace) /\ l = 0 /\ reg = {} /\ changed = {} /\ marks = {} /\ now = 0
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1] IN
       /\ now' = IF s.op = "tick" THEN now + s.d ELSE now
       /\ reg' = CASE s.op = "reg" -> {x \in reg : x.id # s.r.id} \cup {R(s.r)}
                   [] s.op = "unreg" -> {x \in reg : x.id # s.id}
                   [] OTHER -> reg
       /\ changed' = CASE s.op = "reg" /\ Known(reg, s.r.id) -> changed \cup {s.r.id}
                       [] s.op = "unreg" /\ Known(reg, s.id) -> changed \cup {s.id}
                       [] OTHER -> changed
       /\ marks' = IF s.op = "ask" THEN {X(x) : x \in Range(s.after.marks)} ELSE marks
       /\ LET c == IF s.op = "ask" THEN Judge(s) \cup Announced(s) ELSE {} IN
          IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, now |-> now, obs |-> s, reg |-> reg, marks |-> marks]))
Spec == Init /\ [][Next]_<<t, l, reg, changed, marks, now>>
=============================================================================
