------------------------------ MODULE RegisterTrace ------------------------------
EXTENDS Register, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, now, prio, ws, clients
vars == <<t, l, now, prio, ws, clients>>
T == Trace[t]
Steps == T.steps
World(i) == T.worlds[i]
\* Old statements may be used until they expire, each on its own, hence anything there has been
RECURSIVE Ever(_)
Ever(n) == IF n = 0 THEN [known |-> World(1).known, ents |-> <<>>, edges |-> <<>>]
           ELSE LET w == Ever(n - 1) IN IF n \in ws THEN [w EXCEPT !.ents = @ \o World(n).ents, !.edges = @ \o World(n).edges] ELSE w
Obs(q) == {[id |-> c.id, md |-> Range(c.md), uris |-> Range(c.uris), keys |-> Range(c.keys), secret |-> c.secret] : c \in Range(q)}
SetOf(tv) == {x.v : x \in tv}
\* What the server makes of the grant g of the request r
New(r, g, id, secret) == [id |-> id, md |-> SetOf(Metadata(r, g, T.type)), uris |-> Range(r.uris), keys |-> Range(r.app), secret |-> secret]
Clean(r) == r.good /\ T.type \in Range(r.types)
\* the library that provides the OpenID part refuses clients without keys of their own
Must(r) == /\ r.app # <<>> \/ T.type = "oc"
           /\ Acceptable(r, now) /\ Clean(r) /\ Cardinality(ws) = 1 /\ \A i \in ws :
              /\ AllSound(World(i), r.sub, r.signer, Range(r.hints), 6) /\ r.hints # <<>> /\ Granted(World(i), r) # {}
Judge(s) ==
    LET r == s.req
        o == s.obs
        after == Obs(s.clients)
        gs == Granted(Ever(Len(T.worlds)), r)
        sound == Must(r)
        best == IF sound THEN Best(prio, gs) ELSE gs
        \* the client that is to be replaced, or added
        others == IF T.newid THEN clients ELSE {c \in clients : c.id # r.sub} IN
    IF o.ok
    THEN (IF Acceptable(r, now) /\ gs # {} /\ T.type \in Range(r.types) THEN {} ELSE {"granted_without_trust"})
         \cup (IF Acceptable(r, now) /\ gs # {} /\ ~(\E g \in best : g.anchor = o.anchor) THEN {"wrong_anchor"} ELSE {})
         \cup (IF Acceptable(r, now) /\ gs # {} /\ ~(\E g \in best : g.anchor = o.anchor /\ after = others \cup {New(r, g, o.cid, o.secret)})
               THEN {"wrong_client"} ELSE {})
         \cup (IF T.newid /\ \E c \in clients : c.id = o.cid THEN {"client_taken_over"} ELSE {})
         \cup (IF ~T.newid /\ o.cid # r.sub THEN {"not_the_entity"} ELSE {})
         \cup (IF Range(o.md) # UNION {c.md : c \in {x \in after : x.id = o.cid}} THEN {"response_differs"} ELSE {})
         \cup (IF o.iss = "op" /\ o.sub = r.sub /\ o.aud = r.sub /\ o.sig /\ o.exp > now /\ ~o.private THEN {} ELSE {"bad_response"})
    ELSE (IF sound THEN {"refused"} ELSE {}) \cup (IF after # clients THEN {"refused_but_changed"} ELSE {})
Init == t \in 1..Len(Trace) /\ l = 0 /\ now = 0 /\ prio = <<>> /\ ws = {1} /\ clients = {}
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1]
           c == IF s.op = "register" THEN Judge(s) ELSE {} IN
       /\ now' = IF s.op = "tick" THEN now + s.d ELSE now
       /\ prio' = IF s.op = "prio" THEN s.prio ELSE prio
       /\ ws' = IF s.op = "change" THEN ws \cup {s.world} ELSE ws
       /\ clients' = IF s.op = "register" THEN Obs(s.clients) ELSE clients
       /\ IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, now |-> now, prio |-> prio, ws |-> ws,
                                                            before |-> clients, obs |-> s]))
Spec == Init /\ [][Next]_vars
=============================================================================
