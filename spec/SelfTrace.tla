-------------------------------- MODULE SelfTrace --------------------------------
EXTENDS Self, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, now, keys, src, md
vars == <<t, l, now, keys, src, md>>
T == Trace[t]
Steps == T.steps
Name(h) == h
Types(via) == IF via \in {"fetch", "fetchme"} THEN {"federation_entity"} ELSE IF via = "statement" THEN {} ELSE {"federation_entity", T.type}
Judge(s) ==
    LET o == s.obs
        hints == IF s.given # <<>> THEN Source("fun", s.given) ELSE src.hints
        must == Statement("a", keys, hints, src.marks, Types(s.via), md, now, IF s.via = "statement" THEN s.life ELSE 0) IN
    IF ~o.ok THEN {"nothing_said"}
    ELSE (IF o.iss = must.iss /\ o.sub = must.sub THEN {} ELSE {"not_about_itself"})
         \cup (IF o.sig THEN {} ELSE {"not_signed_with_own_key"})
         \cup (IF Range(o.keys) = must.keys /\ Len(o.keys) = Cardinality(must.keys) THEN {} ELSE {"wrong_keys"})
         \cup (IF o.leak THEN {"secret_published"} ELSE {})
         \cup (IF o.iat = must.iat /\ o.exp = must.exp THEN {} ELSE {"wrong_times"})
         \cup (IF o.hints \in Stated(hints) THEN {} ELSE {"wrong_hints"})
         \cup (IF o.marks \in Stated(src.marks) \/ (s.via \in {"fetch", "fetchme"} /\ o.marks = <<"-">>) THEN {} ELSE {"wrong_marks"})
         \cup (IF Range(o.types) = must.types THEN {} ELSE {"wrong_types"})
         \cup (IF T.type \in must.types => Range(o.own) = Range(must.md.own) THEN {} ELSE {"wrong_metadata"})
         \cup (IF "federation_entity" \in must.types => o.org = must.md.org THEN {} ELSE {"wrong_organization"})
         \cup (IF s.via = "ec" => o.ctype = "application/entity-statement+jwt" THEN {} ELSE {"wrong_content_type"})
NewSrc(s) == IF s.op = "set" THEN [src EXCEPT ![s.what] = Source(s.how, s.v)]
             ELSE IF s.op = "change" THEN [src EXCEPT ![s.what].v = s.v] ELSE src
\* Nothing that is configured changes but by configuring it
Changed(s) == IF \A w \in {"hints", "marks"} : s.after[w] = NewSrc(s)[w].v THEN {} ELSE {"configuration_changed"}
Init == t \in 1..Len(Trace) /\ l = 0 /\ now = 0 /\ keys = {"a-rsa", "own"} /\ src = [hints |-> Nothing, marks |-> Nothing]
        /\ md = [org |-> T.org, own |-> T.own]
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1]
           c == (IF s.op = "say" THEN Judge(s) ELSE {}) \cup Changed(s) IN
       /\ now' = IF s.op = "tick" THEN now + s.d ELSE now
       /\ keys' = IF s.op = "addkey" THEN keys \cup {s.key} ELSE IF s.op = "dropkey" THEN keys \ {s.key} ELSE keys
       /\ src' = NewSrc(s)
       /\ md' = IF s.op = "describe" THEN [md EXCEPT ![s.what] = s.v] ELSE md
       /\ IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, now |-> now, keys |-> keys, src |-> src,
                                                            kind |-> T.kind, obs |-> s]))
Spec == Init /\ [][Next]_vars
=============================================================================
