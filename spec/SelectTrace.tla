------------------------------- MODULE SelectTrace -------------------------------
EXTENDS Select, World, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, now, prio, saved, kept
vars == <<t, l, now, prio, saved, kept>>
Steps == Trace[t].steps
W == Trace[t].world
C(c) == [id |-> c.id, anchor |-> c.anchor, sub |-> c.sub, len |-> c.len, exp |-> c.exp]
Cs(q) == {C(c) : c \in Range(q)}
Ids(q) == {c.id : c \in Range(q)}
Kept(e) == {x.c : x \in {y \in kept : y.e = e}}
Must(e) == Exists(W, e) /\ Sound(W, e) /\ \E a \in Range(W.known) : Chains(W, a, e)
\* cs: what is used for e now
UseOk(e, cs) == IF Usable(Kept(e), now) # {} THEN cs = Usable(Kept(e), now)
                ELSE /\ \A c \in cs : c.exp >= now /\ c.sub = e /\ c.anchor \in Range(W.known)
                     /\ (cs = {} => ~(Trace[t].steady /\ Must(e)))
KeptAfter(e, cs) == IF cs = {} THEN kept ELSE {x \in kept : x.e # e} \cup {[e |-> e, c |-> c] : c \in cs}
SavedObs(q) == {[sub |-> x.sub, anchor |-> x.anchor, c |-> C(x.c)] : x \in Range(q)}
Judge(s) ==
    CASE s.op = "pick" -> IF s.obs \in {c.id : c \in Best(prio, Cs(s.chains))} THEN {} ELSE {"wrong_choice"}
      [] s.op = "save" -> IF SavedOk(saved, Cs(s.chains), SavedObs(s.obs)) THEN {} ELSE {"wrong_saved"}
      [] s.op = "stored" -> IF s.obs \in {c.id : c \in Best(prio, {x.c : x \in Of(saved, s.sub)})}
                               \/ (Of(saved, s.sub) = {} /\ s.obs = 0) THEN {} ELSE {"wrong_stored"}
      [] s.op = "lookup" -> IF {<<x.anchor, x.id>> : x \in Range(s.obs)} =
                                 {<<x.anchor, x.c.id>> : x \in {y \in Of(saved, s.sub) : s.anchor = "" \/ y.anchor = s.anchor}}
                            THEN {} ELSE {"wrong_lookup"}
      [] s.op = "get" -> IF UseOk(s.sub, Cs(s.obs)) THEN {} ELSE {"wrong_kept"}
      [] s.op = "md" -> IF UseOk(s.sub, Cs(s.kept)) /\ (IF s.kept = <<>> THEN s.obs = <<"none">>
                              ELSE \E c \in Range(s.kept) : c.md = s.obs) THEN {} ELSE {"wrong_metadata"}
      [] s.op = "export" -> IF s.obs = s.path THEN {} ELSE {"wrong_export"}
      [] OTHER -> {}
Init == t \in 1..Len(Trace) /\ l = 0 /\ now = 0 /\ prio = <<>> /\ saved = {} /\ kept = {}
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1]
           c == Judge(s) IN
       /\ now' = IF s.op = "tick" THEN now + s.d ELSE now
       /\ prio' = IF s.op = "prio" THEN s.prio ELSE prio
       /\ saved' = IF s.op = "save" THEN SavedObs(s.obs) ELSE saved
       /\ kept' = CASE s.op = "get" -> KeptAfter(s.sub, Cs(s.obs)) [] s.op = "md" -> KeptAfter(s.sub, Cs(s.kept))
                    [] s.op = "keep" -> {x \in kept : x.e # s.sub} \cup {[e |-> s.sub, c |-> y] : y \in Cs(s.chains)}
                    [] OTHER -> kept
       /\ IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, now |-> now, prio |-> prio,
                                                            saved |-> saved, kept |-> kept, obs |-> s]))
Spec == Init /\ [][Next]_vars
=============================================================================
