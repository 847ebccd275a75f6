---------------------------------- MODULE Http ----------------------------------
(* Two servers on the web: a trust anchor ("t") with a registry of subordinates, and a trust     *)
(* mark issuer ("m") with a registry of the marks it has issued. What may be answered to a        *)
(* request is a function of the registries, the time and the request; the only request that       *)
(* changes anything is the one for a trust mark.                                                  *)
(* reg: set of [id, types, inter, keys]; marks: set of [tid, sub, iat, exp] (exp Forever: none)   *)
(* A request: [srv, path, p], p the sequence of its parameters, <<name, value>>; tok: what a      *)
(* trust mark given as a parameter says, [tid, sub, iat, good].                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(q) == {q[i] : i \in DOMAIN q}
Forever == 999999999
Values(q, k) == SelectSeq(q.p, LAMBDA x : x[1] = k)
Has(q, k) == Values(q, k) # <<>> /\ Values(q, k)[1][2] # ""
\* the first one counts
Get(q, k) == IF Has(q, k) THEN Values(q, k)[1][2] ELSE ""
True(q, k) == Get(q, k) \in {"true", "True", "1"}

Refused == [kind |-> "refused"]
Statement(iss, sub, keys) == [kind |-> "es", iss |-> iss, sub |-> sub, keys |-> keys]
Ids(S) == [kind |-> "ids", ids |-> S]
Mark(x) == [kind |-> "mark", tid |-> x.tid, sub |-> x.sub, iat |-> x.iat, exp |-> x.exp]
Active == [kind |-> "active"]
Resolved(sub, types) == [kind |-> "resolved", sub |-> sub, types |-> types]

Known(reg, i) == \E r \in reg : r.id = i
Reg(reg, i) == CHOOSE r \in reg : r.id = i
Ent(w, i) == CHOOSE e \in w.ents : e.id = i
\* Can be talked to, with the keys that were registered
Reached(w, r) == \E e \in w.ents : e.id = r.id /\ e.up /\ e.keys = r.keys
Valid(x, now) == now <= x.exp

Fetch(w, reg, q) ==
    IF Has(q, "iss") /\ Get(q, "iss") # q.srv THEN {Refused}
    ELSE IF Get(q, "sub") = q.srv THEN {Statement(q.srv, q.srv, w.own[q.srv])}
    ELSE IF ~Has(q, "sub") THEN {Statement(q.srv, q.srv, w.own[q.srv]), Refused}
    ELSE IF q.srv = "t" /\ Known(reg, Get(q, "sub")) THEN {Statement(q.srv, Get(q, "sub"), Reg(reg, Get(q, "sub")).keys)}
    ELSE {Refused}

Matches(q, r) == /\ (True(q, "intermediate") => r.inter)
                 /\ (Has(q, "entity_type") => Get(q, "entity_type") \in r.types)
Marked(w, q, r) == /\ (True(q, "trust_marked") => Ent(w, r.id).marks # {})
                   /\ (Has(q, "trust_mark_id") => Get(q, "trust_mark_id") \in Ent(w, r.id).marks)
Listed(w, reg, q) ==
    LET S == {r.id : r \in {x \in reg : Matches(q, x)}} IN
    IF ~True(q, "trust_marked") /\ ~Has(q, "trust_mark_id") THEN {Ids(S)}
    ELSE LET U == {r \in reg : Matches(q, r) /\ Reached(w, r)}
             M == {r.id : r \in {x \in U : Marked(w, q, x)}} IN
         IF \A r \in reg : Reached(w, r) THEN {Ids(M)} ELSE {Refused} \cup {Ids(x) : x \in SUBSET M}

\* changed: those whose registration was another one before. What was fetched then may still be valid.
Resolve(w, reg, changed, q) ==
    LET i == Get(q, "sub") IN
    IF ~Has(q, "sub") \/ ~Has(q, "anchor") \/ Get(q, "anchor") # "t" THEN {Refused}
    ELSE LET types == IF \E e \in w.ents : e.id = i THEN Ent(w, i).types ELSE {}
             yes == Resolved(i, IF Has(q, "type") THEN {Get(q, "type")} ELSE types)
             can == Has(q, "type") => Get(q, "type") \in types IN
         (IF can /\ (i \in changed \/ (Known(reg, i) /\ Reached(w, Reg(reg, i)))) THEN {yes} ELSE {})
         \cup (IF can /\ Known(reg, i) /\ Reached(w, Reg(reg, i)) /\ i \notin changed /\ w.anchored THEN {} ELSE {Refused})

Life(w, tid) == (CHOOSE x \in w.life : x.tid = tid).life
Specified(w, tid) == \E x \in w.life : x.tid = tid
NewMark(w, now, q) == [tid |-> Get(q, "trust_mark_id"), sub |-> Get(q, "sub"), iat |-> now,
                       exp |-> IF Life(w, Get(q, "trust_mark_id")) = 0 THEN Forever ELSE now + Life(w, Get(q, "trust_mark_id"))]
Issues(w, q) == q.srv = "m" /\ q.path = "trust_mark" /\ Specified(w, Get(q, "trust_mark_id")) /\ Has(q, "sub")
Issue(w, now, q) == IF Issues(w, q) THEN {Mark(NewMark(w, now, q))} ELSE {Refused}

Status(marks, now, q, tok) ==
    LET tid == IF Has(q, "trust_mark_id") THEN Get(q, "trust_mark_id") ELSE Get(q, "id")
        found == IF Has(q, "trust_mark")
                 THEN tok.good /\ \E x \in marks : x.tid = tok.tid /\ x.sub = tok.sub /\ x.iat = tok.iat /\ Valid(x, now)
                 ELSE \E x \in marks : x.tid = tid /\ x.sub = Get(q, "sub") /\ Valid(x, now)
                                       /\ (Has(q, "iat") => Get(q, "iat") \in {"0", ToString(x.iat)}) IN
    IF found THEN {Active} ELSE {Refused}
Holders(marks, now, q) ==
    LET S == {x.sub : x \in {y \in marks : y.tid = Get(q, "trust_mark_id") /\ Valid(y, now) /\ (Has(q, "sub") => y.sub = Get(q, "sub"))}} IN
    IF S = {} THEN {Refused, Ids({})} ELSE {Ids(S)}

Paths == [t |-> {"fetch", "list", "resolve"}, m |-> {"trust_mark", "trust_mark_status", "trust_mark_list"}]
Allowed(w, reg, changed, marks, now, q, tok) ==
    IF q.path = "config" THEN {Statement(q.srv, q.srv, w.own[q.srv])}
    ELSE IF q.path \notin Paths[q.srv] THEN {Refused}
    ELSE CASE q.path = "fetch" -> Fetch(w, reg, q)
           [] q.path = "list" -> Listed(w, reg, q)
           [] q.path = "resolve" -> Resolve(w, reg, changed, q)
           [] q.path = "trust_mark" -> Issue(w, now, q)
           [] q.path = "trust_mark_status" -> Status(marks, now, q, tok)
           [] q.path = "trust_mark_list" -> Holders(marks, now, q)
After(w, marks, now, q) == IF Issues(w, q) THEN marks \cup {NewMark(w, now, q)} ELSE marks
=============================================================================
