-------------------------------- MODULE FilesTrace -------------------------------
EXTENDS Files, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, fs,
          obj,  \* The objects: whom they make statements for
          old   \* and the keys that each pair has had while they existed
vars == <<t, l, fs, obj, old>>
Steps == Trace[t].steps
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Dir(d) == [d EXCEPT !.keys = Range(@)]
NewFs(s) == CASE s.op = "write" -> Put(fs, <<s.i, s.s>>, Dir(s.dir))
              [] s.op = "drop" -> [x \in DOMAIN fs \ {<<s.i, s.s>>} |-> fs[x]]
              [] OTHER -> fs
NewOld(s) == CASE s.op = "new" -> Put(old, s.o, [p \in DOMAIN fs |-> {fs[p].keys}])
               [] s.op = "write" -> [o \in DOMAIN old |-> Put(old[o], <<s.i, s.s>>,
                     {Range(s.dir.keys)} \cup (IF <<s.i, s.s>> \in DOMAIN old[o] THEN old[o][<<s.i, s.s>>] ELSE {}))]
               [] OTHER -> old
Given(s) == [life |-> s.life, md |-> s.md]
Obs(o) == [o EXCEPT !.keys = Range(@)]
Told(o) == [iss |-> o.iss, sub |-> o.sub, keys |-> Range(o.keys), md |-> o.md, pol |-> o.pol, con |-> o.con, hints |-> o.hints, life |-> o.life]
\* A statement by i about s, with the keys the pairs may have
Statement(s, i, sub, ks, sks, must) ==
    IF ~s.obs.ok THEN (IF must THEN {"no_statement"} ELSE {})
    ELSE IF ~Known(fs, i, sub) THEN {"made_up"}
    ELSE LET o == s.obs
             want == {Says(fs, i, sub, Given(s), k) : k \in ks} IN
         (IF Told(o) \in want THEN {}
          ELSE LET w == CHOOSE w \in want : TRUE IN
               {"wrong_" \o f : f \in {g \in DOMAIN w \ {"keys"} : w[g] # Told(o)[g]}}
               \cup (IF Told(o).keys \in {x.keys : x \in want} THEN {} ELSE {"wrong_keys"}))
         \cup (IF \E k \in sks : SignedBy(k, o.by) THEN {} ELSE {"not_signed_by_issuer"})
         \cup (IF o.secret THEN {"secret"} ELSE {}) \cup (IF o.iat = 0 THEN {} ELSE {"wrong_time"})
         \cup (IF o.other = <<>> THEN {} ELSE {"more"})
Judge(s) ==
    CASE s.op = "publish" -> IF Known(fs, s.i, s.s) THEN Statement(s, s.i, s.s, {fs[<<s.i, s.s>>].keys}, {fs[<<s.i, s.i>>].keys}, Complete(fs, s.i, s.s))
                             ELSE IF s.obs.ok THEN {"made_up"} ELSE {}
      [] s.op = "create" ->
            LET i == obj[s.o]
                ok(p) == p \in DOMAIN old[s.o] /\ p \in DOMAIN fs
                usable(p) == {} \notin old[s.o][p] IN
            IF ~ok(<<i, i>>) \/ ~ok(<<i, s.s>>) THEN (IF s.obs.ok /\ s.fresh THEN {"made_up"} ELSE {})
            ELSE Statement(s, i, s.s, old[s.o][<<i, s.s>>], old[s.o][<<i, i>>],
                           s.fresh /\ \A p \in {<<i, i>>, <<i, s.s>>} : usable(p) /\ \A ks \in old[s.o][<<i, i>>] : \E k \in ks : CanSign(k))
      [] s.op = "load" -> IF s.bad THEN (IF s.obs.t = "raised" THEN {} ELSE {"unknown_type_accepted"})
                          ELSE IF s.obs = Loaded(s.tree, s.has) THEN {} ELSE {"wrong_configuration"}
      [] OTHER -> {}
Init == t \in 1..Len(Trace) /\ l = 0 /\ fs = [x \in {} |-> ""] /\ obj = [x \in {} |-> ""] /\ old = [x \in {} |-> ""]
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1]
           c == Judge(s) IN
       /\ fs' = NewFs(s) /\ old' = NewOld(s)
       /\ obj' = IF s.op = "new" THEN Put(obj, s.o, s.i) ELSE obj
       /\ IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, obs |-> s]))
Spec == Init /\ [][Next]_vars
=============================================================================
