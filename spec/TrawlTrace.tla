------------------------------- MODULE TrawlTrace -------------------------------
EXTENDS Trawl, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, edges, ever
vars == <<t, l, edges, ever>>
T == Trace[t]
Steps == T.steps
Range(q) == {q[i] : i \in DOMAIN q}
Pairs(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Ents == DOMAIN T.ents
Anchors == Range(T.anchors)
Hints == UNION {{<<h, e>> : h \in Range(T.ents[e].hints)} : e \in Ents}
\* What is out of order
EcOk == {e \in Ents : T.ents[e].ec = ""}
ListOk == {e \in Ents : T.ents[e].list = ""}
BadEs == {<<T.bad[i].p, T.bad[i].c>> : i \in DOMAIN T.bad}
IsOf(type) == {e \in Ents : type \in Range(T.ents[e].types)}
SoundNow == Sound(Ents, Anchors, edges \ BadEs, Hints, EcOk)
\* A chain that starts with the one who searches is as good as one that starts with an anchor
ChainedEver == Chained(Anchors \cup {T.me}, ever \ BadEs, Hints)
\* Who can be asked for its subordinates: everyone with a trust chain and a list that works
AskMust == {e \in ListOk \cap EcOk : e \in Anchors \/ e \in SoundNow}
AskMay == {e \in ListOk : e \in Anchors \cup {T.me} \/ e \in ChainedEver}
Inter == {e \in Ents : \E c \in Ents : <<e, c>> \in edges}
GoMust == {x \in edges \ BadEs : x[1] \in AskMust /\ x[2] \in EcOk /\ x[2] \in Inter}
GoMay == {x \in edges : x[1] \in AskMay /\ x[2] \in EcOk /\ x[2] \in Inter}
\* Superiors that don't know what types their subordinates are of can not list them by type
Known == edges \ Pairs(T.hide)
ListsMust == {x \in Known : x[1] \in AskMust}
ListsMay == {x \in Known : x[1] \in AskMay}
Must(sup, root, type) == IF <<sup, root>> \in edges \ BadEs /\ {sup, root} \subseteq EcOk THEN Found(root, GoMust, ListsMust, IsOf(type)) ELSE {}
May(sup, root, type) == IF root \in EcOk THEN Found(root, GoMay, ListsMay, IsOf(type)) ELSE {}
\* Who has what is asked for. What superiors say about credentials goes before what an issuer says itself
Says(e, p) == LET q == {i \in DOMAIN T.pol : T.pol[i].p = p /\ T.pol[i].c = e} IN
              IF "openid_credential_issuer" \notin Range(T.ents[e].types) THEN {}
              ELSE IF q = {} THEN Range(T.ents[e].cred) ELSE {T.pol[CHOOSE i \in q : TRUE].v}
Sups(e, es) == {p \in Ents : <<p, e>> \in es \cap Hints}
CredMust(e, c) == c = "" \/ \A p \in Sups(e, ever) : c \in Says(e, p)
CredMay(e, c) == c = "" \/ \E p \in Sups(e, ever) : c \in Says(e, p)
GoodMark(m, id) == m.id = id /\ m.kind = "good"
MarkMust(e, id) == id = "" \/ \E i \in DOMAIN T.ents[e].marks : GoodMark(T.ents[e].marks[i], id) /\ "m" \in SoundNow
MarkMay(e, id) == id = "" \/ \E i \in DOMAIN T.ents[e].marks : GoodMark(T.ents[e].marks[i], id) /\ "m" \in ChainedEver
WhoMust(a, s) == IF a \notin AskMust THEN {} ELSE
    {e \in UNION {Must(a, x[2], s.type) : x \in {y \in edges : y[1] = a}} : e \in SoundNow \ Anchors /\ CredMust(e, s.cred) /\ MarkMust(e, s.mark)}
WhoMay(a, s) == IF a \notin AskMay THEN {} ELSE
    {e \in UNION {May(a, x[2], s.type) : x \in {y \in edges : y[1] = a}} : e \in ChainedEver /\ CredMay(e, s.cred) /\ MarkMay(e, s.mark)}
Judge(s) ==
    LET o == s.obs
        got == Range(o.found)
        must == IF s.op = "who" THEN WhoMust(s.anchor, s) ELSE Must(s.sup, s.root, s.type)
        may == IF s.op = "who" THEN WhoMay(s.anchor, s) ELSE May(s.sup, s.root, s.type) IN
    IF s.op = "who" /\ s.anchor \notin Anchors THEN (IF o.err = "" THEN {"anchor_not_trusted"} ELSE {})
    ELSE (IF o.err = "" THEN {} ELSE {"search_fails"})
         \cup (IF o.err = "" => must \subseteq got THEN {} ELSE {"not_found"})
         \cup (IF got \subseteq may THEN {} ELSE {"found_what_is_not_there"})
         \cup (IF s.op = "who" => Len(o.found) = Cardinality(got) THEN {} ELSE {"found_twice"})
         \cup (IF o.keys THEN {} ELSE {"anchor_keys_changed"})
New(s) == IF s.op = "join" THEN edges \cup {<<s.p, s.c>>} ELSE IF s.op = "leave" THEN edges \ {<<s.p, s.c>>} ELSE edges
Init == t \in 1..Len(Trace) /\ l = 0 /\ edges = Pairs(T.edges) /\ ever = Pairs(T.edges)
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1]
           c == IF s.op \in {"who", "trawl"} THEN Judge(s) ELSE {} IN
       /\ edges' = New(s) /\ ever' = ever \cup New(s)
       /\ IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, edges |-> edges, ents |-> T.ents, bad |-> T.bad, pol |-> T.pol,
              anchors |-> T.anchors, obs |-> s,
              must |-> IF s.op = "who" THEN WhoMust(s.anchor, s) ELSE Must(s.sup, s.root, s.type),
              may |-> IF s.op = "who" THEN WhoMay(s.anchor, s) ELSE May(s.sup, s.root, s.type)]))
Spec == Init /\ [][Next]_vars
=============================================================================
