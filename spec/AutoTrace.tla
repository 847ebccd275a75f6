------------------------------- MODULE AutoTrace -------------------------------
EXTENDS Auto, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, now, ws, clients, keys, pushed, tried
vars == <<t, l, now, ws, clients, keys, pushed, tried>>
T == Trace[t]
Steps == T.steps
World(i) == T.worlds[i]
\* Old statements may be used until they expire, each on its own, hence anything there has been
RECURSIVE Ever(_)
Ever(n) == IF n = 0 THEN [known |-> World(1).known, ents |-> <<>>, edges |-> <<>>]
           ELSE LET w == Ever(n - 1) IN IF n \in ws THEN [w EXCEPT !.ents = @ \o World(n).ents, !.edges = @ \o World(n).edges] ELSE w
Obs(q) == {[id |-> c.id, md |-> Range(c.md), uris |-> Range(c.uris), auto |-> c.auto] : c \in Range(q)}
Of(cs, e) == {c \in cs : c.id = e}
Uris(cs, e) == UNION {c.uris : c \in Of(cs, e)}
KeysOf(ks, e) == UNION {x.app : x \in {y \in ks : y.e = e}}
Ev == Ever(Len(T.worlds))
Opts(e, c) == May(Ev, clients, e, c, T.anchors, now, T.type, T.auto)
New(e, r) == [id |-> e, md |-> r.md, uris |-> r.uris, auto |-> T.type = "rp"]
\* the options that explain what e is registered as after the step
Explain(e, c, after) == {r \in Opts(e, c) : Of(after, e) = {New(e, r)}}
Changed(after) == {c.id : c \in (after \ clients) \cup (clients \ after)}
\* whether e was, or may have been, registered in this step: how
Anew(e, c, ok, after) == IF (ok /\ ~Known(clients, e)) \/ e \in Changed(after) THEN Explain(e, c, after) ELSE {}
KeysAfter(e, c, ok, after) ==
    LET x == Anew(e, c, ok, after) IN
    IF x = {} THEN keys ELSE {y \in keys : y.e # e} \cup {[e |-> e, app |-> r.app] : r \in x}
Proper(e, c) == T.auto /\ Cardinality(ws) = 1 /\ (IF c = <<>> THEN
                   /\ Discovered(Ev, e, T.type) # {}
                   /\ \A x \in EntsOf(Ev, e) : AllSound(Ev, e, x.signer, Range(x.hints), 6)
                   ELSE Provided(c, e, T.anchors, now, T.type) # {})
\* the library that provides the OpenID part refuses clients without keys of their own
HasKeys(opts) == T.type = "oc" \/ \A r \in opts : r.app # {}
Registered(e, after, s) == Of(after, e) # {} /\ (Known(clients, e) \/ Explain(e, s, after) # {})
Judge(s) ==
    LET q == s.req
        o == s.obs
        after == Obs(s.clients)
        ids == {q.cid} \cup (IF q.signer # "" THEN {q.iss} ELSE {})
        chainOf(e) == IF e = q.cid THEN q.chain ELSE <<>>
        ks == KeysAfter(q.cid, q.chain, o.ok, after)
        ks2 == IF q.iss = q.cid THEN ks ELSE ks \cup {y \in KeysAfter(q.iss, <<>>, FALSE, after) : y.e = q.iss}
        known == Known(clients, q.cid)
        opts == Opts(q.cid, q.chain)
        must == /\ q.iss = q.cid
                /\ IF known THEN q.uri \in Uris(clients, q.cid) /\ (q.signer # "" => q.signer \in KeysOf(keys, q.cid))
                   ELSE Proper(q.cid, q.chain) /\ HasKeys(opts) /\ \A r \in opts : q.uri \in r.uris /\ (q.signer # "" => q.signer \in r.app)
                /\ (T.pop \/ s.op = "par") => q.signer # "" IN
    \* nobody else, and nothing but what can be proved, gets registered
    (IF \A e \in Changed(after) : \/ (e \in ids /\ Explain(e, chainOf(e), after) # {})
                                \/ (T.newid /\ q.signer # "" /\ Of(clients, e) = {} /\ \E r \in Opts(q.iss, <<>>) : Of(after, e) = {New(e, r)})
     THEN {} ELSE {"wrong_client"})
    \cup (IF ~o.ok THEN (IF must THEN {"refused"} ELSE {})
          ELSE (IF Registered(o.cid, after, chainOf(o.cid)) /\ o.cid \in ids THEN {} ELSE {"accepted_without_trust"})
               \cup (IF o.uri \in Uris(after, o.cid) THEN {} ELSE {"foreign_uri"})
               \cup (IF q.signer # "" => q.signer \in KeysOf(ks2, o.cid) THEN {} ELSE {"foreign_key"})
               \cup (IF (T.pop \/ s.op = "par") => q.signer # "" THEN {} ELSE {"not_proved"})
               \cup (IF T.type = "rp" /\ ~Known(clients, o.cid) /\ o.cid = q.cid /\ ~(\E r \in Explain(q.cid, q.chain, after) : r.anchor = o.anchor)
                     THEN {"wrong_anchor"} ELSE {}))
\* A server that gives those it registers a client identifier of its own, every time. The entity
\* is then known by both.
JudgeNewId(s) ==
    LET q == s.req
        o == s.obs
        after == Obs(s.clients)
        opts == Opts(q.cid, q.chain)
        Is(e, r) == Of(after, e) = {New(e, r)}
        must == /\ q.iss = q.cid /\ Proper(q.cid, q.chain) /\ HasKeys(opts) /\ ((T.pop \/ s.op = "par") => q.signer # "")
                /\ \A r \in opts : q.uri \in r.uris /\ (q.signer # "" => q.signer \in r.app) IN
    (IF \A e \in Changed(after) :
            \/ (e = q.cid \/ Of(clients, e) = {}) /\ (\E r \in opts : Is(e, r))
            \/ q.signer # "" /\ Of(clients, e) = {} /\ (\E r2 \in Opts(q.iss, <<>>) : Is(e, r2))
     THEN {} ELSE {"wrong_client"})
    \cup (IF ~o.ok THEN (IF must THEN {"refused"} ELSE {})
          ELSE (IF o.cid # q.cid /\ Of(clients, o.cid) = {} THEN {} ELSE {"not_a_new_id"})
               \cup (IF \E r \in opts : /\ Is(o.cid, r) /\ Is(q.cid, r) /\ o.uri \in r.uris
                                       /\ q.signer # "" => q.iss = q.cid /\ q.signer \in r.app
                     THEN {} ELSE {"accepted_without_trust"})
               \cup (IF (T.pop \/ s.op = "par") => q.signer # "" THEN {} ELSE {"not_proved"}))
JudgeUse(s) ==
    LET o == s.obs
        after == Obs(s.clients)
        must == /\ s.urn <= Len(pushed) /\ s.urn \notin tried /\ s.cid = pushed[s.urn].cid /\ Known(clients, s.cid)
                /\ pushed[s.urn].uri \in Uris(clients, s.cid) IN
    (IF \A e \in Changed(after) : \/ (e = s.cid /\ Explain(e, <<>>, after) # {})
                                   \/ (T.newid /\ Of(clients, e) = {} /\ \E r \in Opts(s.cid, <<>>) : Of(after, e) = {New(e, r)})
     THEN {} ELSE {"wrong_client"})
    \cup (IF ~o.ok THEN (IF must THEN {"refused"} ELSE {})
          ELSE (IF s.urn <= Len(pushed) /\ s.urn \notin {x \in tried : pushed[x].used} THEN {} ELSE {"used_again"})
               \cup (IF s.urn <= Len(pushed) /\ o.cid = pushed[s.urn].cid /\ o.uri = pushed[s.urn].uri /\ o.state = pushed[s.urn].state
                     THEN {} ELSE {"other_request"})
               \cup (IF o.uri \in Uris(after, o.cid) THEN {} ELSE {"foreign_uri"}))
Init == t \in 1..Len(Trace) /\ l = 0 /\ now = 0 /\ ws = {1} /\ clients = {} /\ keys = {} /\ pushed = <<>> /\ tried = {}
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1]
           asks == s.op \in {"authz", "par"}
           c == CASE asks -> (IF T.newid /\ ~Known(clients, s.req.cid) THEN JudgeNewId(s) ELSE Judge(s)) [] s.op = "use" -> JudgeUse(s) [] OTHER -> {} IN
       /\ now' = IF s.op = "tick" THEN now + s.d ELSE now
       /\ ws' = IF s.op = "change" THEN ws \cup {s.world} ELSE ws
       /\ clients' = IF asks \/ s.op \in {"use", "register"} THEN Obs(s.clients) ELSE clients
       /\ keys' = CASE asks ->
                         LET after == Obs(s.clients)
                             k1 == KeysAfter(s.req.cid, s.req.chain, s.obs.ok, after) IN
                         IF s.req.iss = s.req.cid \/ s.req.iss \notin Changed(after) THEN k1
                         ELSE {y \in k1 : y.e # s.req.iss} \cup {y \in KeysAfter(s.req.iss, <<>>, FALSE, after) : y.e = s.req.iss}
                    [] s.op = "use" -> KeysAfter(s.cid, <<>>, s.obs.ok, Obs(s.clients))
                    [] s.op = "register" ->
                         {y \in keys : y.e \notin Changed(Obs(s.clients))} \cup {[e |-> e, app |-> {e \o "-app"}] : e \in Changed(Obs(s.clients))}
                    [] OTHER -> keys
       /\ pushed' = CASE s.op = "par" /\ s.obs.ok ->
                           Append(pushed, [cid |-> s.obs.cid, uri |-> s.obs.uri, state |-> s.obs.state, used |-> FALSE])
                      [] s.op = "use" /\ s.obs.ok /\ s.urn <= Len(pushed) -> [pushed EXCEPT ![s.urn].used = TRUE]
                      [] OTHER -> pushed
       /\ tried' = IF s.op = "use" /\ s.urn <= Len(pushed) THEN tried \cup {s.urn} ELSE tried
       /\ IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, now |-> now, ws |-> ws,
                                                            before |-> clients, keys |-> keys, pushed |-> pushed, obs |-> s]))
Spec == Init /\ [][Next]_vars
=============================================================================
