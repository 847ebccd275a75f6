------------------------------- MODULE LoginTrace -------------------------------
EXTENDS Login, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, now, ws, cur, prov, keys, ss
vars == <<t, l, now, ws, cur, prov, keys, ss>>
T == Trace[t]
Steps == T.steps
World(i) == T.worlds[i]
RECURSIVE Ever(_)
Ever(n) == IF n = 0 THEN [Empty EXCEPT !.known = World(1).known]
           ELSE LET w == Ever(n - 1) IN IF n \in ws THEN [w EXCEPT !.ents = @ \o World(n).ents, !.edges = @ \o World(n).edges] ELSE w
All == Ever(Len(T.worlds))
Static == ws = {1}
\* What the client knows about the provider, and the keys. With a jwks_uri there can be other keys at any time
Keys(s) == Range(s.after.keys)
ByUri == \E i \in ws : World(i).md.keys = "uri"
Could == keys \cup (IF ByUri THEN UNION {Range(World(i).md.jwks) : i \in ws} ELSE {})
None == [none |-> TRUE, md |-> {}]
After(s) == IF s.after.md = <<"-">> THEN None ELSE [none |-> FALSE, md |-> Range(s.after.md)]
Session(rt) == [rt |-> rt, good |-> {}, last |-> -1, ats |-> {}, code |-> FALSE]
Started == DOMAIN ss
Kept(s) == IF Range(s.after.sessions) = Started THEN {} ELSE {"sessions_changed"}
Same(s) == (IF After(s) = prov THEN {} ELSE {"metadata_changed"})
           \cup (IF Keys(s) = keys \/ ByUri THEN {} ELSE {"keys_changed"})
           \cup (IF s.after.others THEN {"keys_of_others_changed"} ELSE {})
Info(s) ==
    LET o == s.obs
        fits(i, g) == LET m == World(i).md IN IsProvider(m, T.op) /\ Range(s.after.md) = Stated(m, g)
        gs == IF Static THEN Best(T.prio, GrantsOf(All, T.op)) ELSE GrantsOf(All, T.op)
        already == ~s.fresh /\ ~prov.none
        wk == World(cur).md
        must == /\ Static /\ Sound(World(1), T.op) /\ GrantsOf(All, T.op) # {} /\ IsProvider(wk, T.op) IN
    IF already THEN Same(s) \cup (IF o.ok THEN {} ELSE {"refused"}) \cup Kept(s)
    ELSE (IF o.ok
          THEN (IF gs # {} THEN {} ELSE {"accepted_without_trust"})
               \cup (IF o.iss = T.op THEN {} ELSE {"wrong_issuer"})
               \cup (IF \E i \in ws, g \in gs : fits(i, g) THEN {} ELSE {"wrong_metadata"})
               \cup (IF o.ends THEN {} ELSE {"wrong_endpoints"})
               \cup (IF \E i \in ws : World(i).md.keys = "none" \/ Keys(s) = Range(World(i).md.jwks) THEN {} ELSE {"wrong_keys"})
               \cup (IF Static /\ wk.keys # "none" /\ Keys(s) # Range(wk.jwks) THEN {"wrong_keys"} ELSE {})
          ELSE (IF must THEN {"refused"} ELSE {})
               \cup (IF After(s) = None THEN {} ELSE {"refused_but_changed"})
               \cup (IF Keys(s) = keys \/ ByUri THEN {} ELSE {"keys_changed"}))
         \cup (IF s.after.others THEN {"keys_of_others_changed"} ELSE {}) \cup Kept(s)
Common == Range(T.types) \cap UNION {Range(World(i).md.types) : i \in ws}
Reg(s) == Same(s) \cup Kept(s)
          \cup (IF s.obs.ok /\ Common = {} THEN {"not_possible"} ELSE {})
          \cup (IF s.obs.ok /\ s.obs.asked THEN {"asked"} ELSE {})
          \cup (IF ~s.obs.ok /\ ~prov.none /\ Static /\ Common = {"automatic"} THEN {"refused"} ELSE {})
\* What is asked for is what the client was configured to ask for, overridden by what was asked for in this session
Asked(s) == LET mine == {x[1] : x \in Range(s.args)} IN Range(s.args) \cup {x \in Range(T.args) : x[1] \notin mine}
Start(s) ==
    LET o == s.obs IN
    Same(s)
    \cup (IF o.ok THEN (IF prov.none \/ o.to = "own" THEN {} ELSE {"sent_elsewhere"})
                       \cup (IF o.cid = T.me /\ o.uri /\ o.rt THEN {} ELSE {"wrong_request"})
                       \cup (IF Range(o.args) = Asked(s) THEN {} ELSE {"other_arguments"})
                       \cup (IF o.fresh THEN {} ELSE {"not_fresh"})
                       \cup (IF ~\E i \in ws : World(i).md.authn THEN {"unauthenticated"} ELSE {})
                       \cup (IF o.ro = "rp-a" /\ o.life > 0 /\ o.life <= 300 /\ o.jti /\ o.same THEN {} ELSE {"unauthenticated"})
                       \cup (IF Range(s.after.sessions) = Started \cup {s.k} THEN {} ELSE {"sessions_changed"})
               ELSE (IF ~prov.none /\ \A i \in ws : World(i).md.authn THEN {"refused"} ELSE {}) \cup Kept(s))
Login(s) ==
    LET r == s.resp
        o == s.obs
        known == r.state \in Started
        rt == ss[r.state].rt IN
    Same(s) \cup Kept(s)
    \cup (IF Range(o.to) \subseteq {T.op} THEN {} ELSE {"talked_to_others"})
    \cup (IF o.ok
          THEN (IF known THEN {} ELSE {"not_asked_for"})
               \cup (IF ~known THEN {} ELSE
                     (IF Acceptable2([r EXCEPT !.code = @ \/ ss[r.state].code], rt, T.me, T.op, Could) THEN {} ELSE {"accepted_unacceptable"})
                     \cup (IF o.k = r.state THEN {} ELSE {"wrong_session"})
                     \cup (IF o.sub = Subject(r, rt) THEN {} ELSE {"wrong_subject"})
                     \cup (IF Back(rt) => o.asked /\ o.at = r.token.at /\ o.bearer = "Bearer " \o r.token.at THEN {} ELSE {"wrong_token"})
                     \cup (IF Back(rt) => o.info = r.info.sub THEN {} ELSE {"wrong_info"}))
          ELSE (IF known /\ ~prov.none /\ Flawless(r, rt, T.me, T.op, keys) /\ ~(ByUri /\ ~Static) THEN {"refused"} ELSE {}))
\* What is known about the session after it
Learnt(s) ==
    LET r == s.resp
        se == ss[r.state]
        tok(d) == IF GoodToken(d, T.me, T.op, r.state, Could) THEN {now + d.life} ELSE {}
        exp == IF r.token.expires = 0 THEN 0 ELSE now + r.token.expires
        d == IF Back(se.rt) THEN r.token.idt ELSE r.idt IN
    [se EXCEPT !.code = @ \/ r.code, !.good = @ \cup tok(r.idt) \cup (IF Delivered(r.token) THEN tok(r.token.idt) ELSE {}),
               !.last = IF s.obs.ok /\ ~d.none THEN now + d.life ELSE -1,
               !.ats = IF Delivered(r.token) /\ r.token.at # "" THEN @ \cup {[at |-> r.token.at, exp |-> exp]} ELSE @]
Active(s) ==
    LET k == s.k
        o == s.obs
        known == k \in Started IN
    Same(s) \cup Kept(s)
    \cup (IF o.ok THEN (IF known /\ \E g \in ss[k].good : g > now THEN {} ELSE {"active_without_login"})
          ELSE (IF known /\ ss[k].last > now THEN {"not_active"} ELSE {}))
    \cup (IF o.at # "" THEN (IF known /\ \E a \in ss[k].ats : a.at = o.at /\ (a.exp = 0 \/ a.exp > now) THEN {} ELSE {"token_not_valid"})
          ELSE {})
Judge(s) == CASE s.op = "info" -> Info(s) [] s.op = "reg" -> Reg(s) [] s.op = "init" -> Start(s) [] s.op = "login" -> Login(s)
              [] s.op = "active" -> Active(s)
              [] s.op = "clear" -> Same(s) \cup (IF Range(s.after.sessions) = Started \ {s.k} THEN {} ELSE {"sessions_changed"})
              [] OTHER -> {}
Init == t \in 1..Len(Trace) /\ l = 0 /\ now = 0 /\ ws = {1} /\ cur = 1 /\ prov = None /\ keys = {} /\ ss = <<>>
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1]
           c == Judge(s) IN
       /\ now' = IF s.op = "tick" THEN now + s.d ELSE now
       /\ ws' = IF s.op = "change" THEN ws \cup {s.world} ELSE ws
       /\ cur' = IF s.op = "change" THEN s.world ELSE cur
       /\ prov' = IF s.op = "info" THEN After(s) ELSE prov
       /\ keys' = Keys(s)
       /\ ss' = CASE s.op = "init" /\ s.obs.ok -> (s.k :> Session(s.rt)) @@ ss
                  [] s.op = "login" /\ s.resp.state \in Started -> [ss EXCEPT ![s.resp.state] = Learnt(s)]
                  [] s.op = "clear" -> [k \in Started \ {s.k} |-> ss[k]]
                  [] OTHER -> ss
       /\ IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, now |-> now, ws |-> ws, ss |-> ss,
                                                            before |-> prov, obs |-> s]))
Spec == Init /\ [][Next]_vars
=============================================================================
