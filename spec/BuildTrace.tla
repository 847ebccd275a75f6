-------------------------------- MODULE BuildTrace -------------------------------
EXTENDS Build, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, ents
vars == <<t, l, ents>>
Steps == Trace[t].steps
Conf(s) == LET c == s.conf IN
    [c EXCEPT !.eps = Range(@), !.srv = Range(@), !.fun = Range(@), !.anchors = Range(@), !.subs = Range(@), !.pols = Range(@), !.life = Range(@)]
After(s) ==
    IF s.op = "build" THEN (IF s.err = "" THEN [e \in DOMAIN ents \cup {s.e} |-> IF e = s.e THEN Fresh(Conf(s)) ELSE ents[e]] ELSE ents)
    ELSE IF s.op = "load" THEN ents   \* A part of the package is loaded before all others
    ELSE [ents EXCEPT ![s.e] = Effect(@, s.op, s.x)]
\* Names of claims for endpoints
Claim(ep) == CASE ep = "entity_configuration" -> {} [] ep = "who" -> {"federation_who_endpoint"} [] OTHER -> {"federation_" \o ep \o "_endpoint"}
Claims(eps) == UNION {Claim(x) : x \in eps}
\* What is seen of entity e has to be what it is
Sees(e, m, o) ==
    IF o.bad # "" THEN {"does_not_work"}
    ELSE (IF Range(o.eps) = m.eps THEN {} ELSE {"wrong_endpoints"})
         \cup (IF Range(o.said.eps) \cap Claims(MarkEndpoints \cup {"fetch", "list", "resolve"}) = Claims(m.eps \ {"who"}) THEN {} ELSE {"wrong_metadata"})
         \cup (IF Range(o.srv) = m.srv THEN {} ELSE {"wrong_services"})
         \cup (IF Range(o.fun) = m.fun THEN {} ELSE {"wrong_functions"})
         \cup (IF Range(o.anchors) = m.anchors THEN {} ELSE {"wrong_anchors"})
         \cup (IF Range(o.known) = m.anchors THEN {} ELSE {"wrong_keys_known"})
         \cup (IF o.hints = m.hints /\ o.said.hints = m.hints THEN {} ELSE {"wrong_hints"})
         \cup (IF o.marks = m.marks /\ o.said.marks = m.marks THEN {} ELSE {"wrong_marks"})
         \cup (IF Range(o.subs) = m.subs /\ (o.listed = <<"-">> \/ Range(o.listed) = m.subs) THEN {} ELSE {"wrong_subordinates"})
         \cup (IF Range(o.pols) = m.pols THEN {} ELSE {"wrong_policies"})
         \cup (IF o.org = m.org THEN {} ELSE {"wrong_name"})
         \cup (IF o.delta = m.delta THEN {} ELSE {"wrong_margin"})
         \cup (IF Range(o.verify) = {m.verify} THEN {} ELSE {"wrong_http_parameters"})
         \cup (IF Range(o.life) = m.life THEN {} ELSE {"wrong_lifetimes"})
         \cup (IF Range(o.keys) = m.keys /\ Range(o.said.keys) = m.keys THEN {} ELSE {"wrong_keys"})
         \cup (IF o.owners = <<e>> /\ o.hosts = <<e>> THEN {} ELSE {"parts_of_another"})
Judge(s, now) ==
    LET seen == {o.e : o \in Range(s.after)} IN
    (IF s.err = "" THEN {} ELSE {"failed"})
    \cup (IF seen = DOMAIN now THEN {} ELSE {"missing"})
    \cup UNION {IF o.e \in DOMAIN now THEN Sees(o.e, now[o.e], o) ELSE {} : o \in Range(s.after)}
Init == t \in 1..Len(Trace) /\ l = 0 /\ ents = [e \in {} |-> ""]
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1]
           c == Judge(s, After(s)) IN
       /\ ents' = After(s)
       /\ IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, is |-> After(s), obs |-> s]))
Spec == Init /\ [][Next]_vars
=============================================================================
