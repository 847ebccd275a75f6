-------------------------------- MODULE AskTrace --------------------------------
EXTENDS Ask, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, now, known, cache
vars == <<t, l, now, known, cache>>
T == Trace[t]
Steps == T.steps
Ents == {"t", "i", "p", "e"}
Range(q) == {q[i] : i \in DOMAIN q}
Known0 == [e \in Ents |-> Range(T.known[e])]
\* What happens with a question: the entity configuration that may be needed first, then the question itself
Before(s) == First(s.kind, cache[s.asked], now) = {"ec"}
\* (a trust anchor's statement from the future is neither here nor there)
EcOk(s) == Accept(IF s.kind = "list" THEN [s.ec EXCEPT !.iat = 0] ELSE s.ec, s.asked, s.asked, now, known)
EcMust(s) == MustAccept(s.ec, s.asked, s.asked, now, known)
\* The entity configuration that tells where to ask
From(s) == IF Before(s) THEN s.ec ELSE cache[s.asked]
Went(s) == ~Before(s) \/ s.ec.n \in Range(s.obs.followed) \/ s.kind \in {"config", "resolve"}
Urls(s) ==
    LET wk == <<s.asked, "ec", 0>>
        to == CASE s.kind = "config" -> <<s.asked, "ec", 0>>
                [] s.kind = "statement" -> <<s.asked, "fetch", From(s).n>>
                [] s.kind = "list" -> <<s.asked, "list", From(s).n>>
                [] OTHER -> <<s.asked, "resolve", 0>> IN
    IF Before(s) THEN (IF EcMust(s) THEN {<<wk, to>>} ELSE IF EcOk(s) THEN {<<wk>>, <<wk, to>>} ELSE {<<wk>>}) ELSE {<<to>>}
Judge(s) ==
    LET o == s.obs
        ecfine == Before(s) => EcOk(s)
        may == ecfine /\ (IF s.kind = "list" THEN s.re.status = 200 /\ s.re.form = "list" ELSE Accept(s.re, s.asked, s.about, now, known))
        must == may /\ (Before(s) => EcMust(s)) /\ (s.kind = "list" \/ MustAccept(s.re, s.asked, s.about, now, known)) IN
    (IF o.ok /\ ~may THEN {"accepted_what_must_not_be"} ELSE {})
    \cup (IF ~o.ok /\ must THEN {"refused_a_good_answer"} ELSE {})
    \cup (IF o.ok => o.doc = s.re.n THEN {} ELSE {"not_what_was_answered"})
    \cup (IF o.urls \in Urls(s) THEN {} ELSE {"asked_elsewhere"})
\* What is remembered afterwards. An acceptable configuration that need not be accepted may be remembered
Expect(s) ==
    IF s.op # "ask" THEN {cache}
    ELSE IF s.kind = "config" THEN
         (IF Accept(s.re, s.asked, s.asked, now, known) THEN {Remember(cache, s.re)} \cup (IF s.obs.ok THEN {} ELSE {cache}) ELSE {cache})
    ELSE IF s.kind = "statement" /\ Before(s) THEN
         (IF EcOk(s) THEN {Remember(cache, s.ec)} \cup (IF EcMust(s) THEN {} ELSE {cache}) ELSE {cache})
    ELSE {cache}
Shown(c, n) == [e \in Ents |-> IF Fresh(c[e], n) THEN c[e].n ELSE 0]
Now2(s) == IF s.op = "tick" THEN now + s.d ELSE now
Known2(s) == IF s.op = "learn" THEN [known EXCEPT ![s.of] = @ \cup {s.key}] ELSE known
Kept(s) == {c \in Expect(s) : Shown(c, Now2(s)) = [e \in Ents |-> s.after.cache[e]]}
After(s) == (IF Kept(s) # {} THEN {} ELSE {"remembers_something_else"})
            \cup (IF \A e \in Ents : Range(s.after.known[e]) = Known2(s)[e] THEN {} ELSE {"keys_changed"})
Init == t \in 1..Len(Trace) /\ l = 0 /\ now = 0 /\ known = Known0 /\ cache = [e \in Ents |-> NoDoc]
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1]
           c == (IF s.op = "ask" THEN Judge(s) ELSE {}) \cup After(s) IN
       /\ now' = Now2(s)
       /\ known' = Known2(s)
       /\ cache' = IF Kept(s) # {} THEN CHOOSE x \in Kept(s) : TRUE ELSE CHOOSE x \in Expect(s) : TRUE
       /\ IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, now |-> now, known |-> known, cache |-> cache, obs |-> s]))
Spec == Init /\ [][Next]_vars
=============================================================================
