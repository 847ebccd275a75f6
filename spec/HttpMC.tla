---------------------------------- MODULE HttpMC ----------------------------------
(* Any requests, from anyone, while subordinates come and go and time passes. *)
EXTENDS Http
CONSTANTS Subs, Tids, MaxNow, MaxMarks
VARIABLES reg, changed, marks, now, q, out
\* what was asked last matters only while it is judged
vars == <<reg, changed, marks, now, q, out>>
Names == Subs \cup {"x", "t"}
W == [own |-> [t |-> {"kt"}, m |-> {"km"}], life |-> {[tid |-> t, life |-> IF t = "1" THEN 1 ELSE 0] : t \in Tids}, anchored |-> TRUE,
      ents |-> {[id |-> s, up |-> s # "c", keys |-> {s}, types |-> {"rp"}, marks |-> IF s = "a" THEN {"1"} ELSE {}] : s \in Subs}]
Opt(k, V) == {<<>>} \cup {<<<<k, v>>>> : v \in V}
Ask(srv, path, P) == {[srv |-> srv, path |-> path, p |-> p] : p \in P}
Requests ==
    Ask("t", "fetch", {a \o b : a \in Opt("iss", {"t", "x"}), b \in Opt("sub", Names)})
    \cup Ask("t", "list", {a \o b \o c : a \in Opt("entity_type", {"rp", "op"}), b \in Opt("intermediate", {"true"}), c \in Opt("trust_marked", {"true"})})
    \cup Ask("t", "resolve", {a \o b \o c : a \in Opt("sub", Names), b \in Opt("anchor", {"t", "x"}), c \in Opt("type", {"rp", "op"})})
    \cup Ask("m", "trust_mark", {a \o b : a \in Opt("trust_mark_id", Tids \cup {"9"}), b \in Opt("sub", {"a", "x"})})
    \cup Ask("m", "trust_mark_list", {a \o b : a \in Opt("trust_mark_id", Tids \cup {"9"}), b \in Opt("sub", {"a", "x"})})
    \cup Ask("m", "trust_mark_status", {a \o b \o c : a \in Opt("trust_mark_id", Tids \cup {"9"}), b \in Opt("sub", {"a", "x"}), c \in Opt("iat", {"0", "1"})})
NoTok == [tid |-> "", sub |-> "", iat |-> 0, good |-> FALSE]
None == [srv |-> "t", path |-> "", p |-> <<>>]
Init == reg = {} /\ changed = {} /\ marks = {} /\ now = 0 /\ q = None /\ out = Refused
Register == q = None /\ \E s \in Subs, i \in BOOLEAN, k \in {{"k"}, {}} :
    /\ ~Known(reg, s) /\ reg' = reg \cup {[id |-> s, types |-> {"rp"}, inter |-> i, keys |-> {s} \cup k]}
    /\ UNCHANGED <<changed, marks, now>> /\ q' = None /\ out' = Refused
Remove == q = None /\ \E r \in reg : reg' = reg \ {r} /\ changed' = changed \cup {r.id} /\ UNCHANGED <<marks, now>> /\ q' = None /\ out' = Refused
Tick == q = None /\ now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<reg, changed, marks>> /\ q' = None /\ out' = Refused
Request == q = None /\ \E r \in Requests :
    /\ (Issues(W, r) => Cardinality(marks) < MaxMarks)
    /\ q' = r /\ out' \in Allowed(W, reg, changed, marks, now, r, NoTok)
    /\ marks' = After(W, marks, now, r) /\ UNCHANGED <<reg, changed, now>>
\* ... and then it is forgotten
Forget == q # None /\ q' = None /\ out' = Refused /\ UNCHANGED <<reg, changed, marks, now>>
Next == Forget \/ Register \/ Remove \/ Tick \/ Request
Spec == Init /\ [][Next]_vars
\* There always is something to answer
Answered == q = None => \A r \in Requests : Allowed(W, reg, changed, marks, now, r, NoTok) # {}
\* Nothing about anyone that is not registered
OnlyRegistered == (out.kind = "es" /\ out.sub # out.iss => \E r \in reg : r.id = out.sub /\ r.keys = out.keys)
OnlyListed == (q.path = "list" /\ out.kind = "ids" => \A i \in out.ids : Known(reg, i))
NotOthers == (out.kind = "resolved" => Known(reg, out.sub) \/ out.sub \in changed)
\* No mark is there that has run out, and none that was not issued
OnlyIssued == /\ (out.kind = "active" => \E x \in marks : x.sub = Get(q, "sub") /\ Valid(x, now))
              /\ (q.path = "trust_mark_list" /\ out.kind = "ids" => \A i \in out.ids : \E x \in marks : x.sub = i /\ Valid(x, now))
              /\ (out.kind = "mark" => [tid |-> out.tid, sub |-> out.sub, iat |-> out.iat, exp |-> out.exp] \in marks)
\* Asking changes nothing
ReadOnly == [][q'.path # "" => /\ reg' = reg /\ (marks' # marks => out'.kind = "mark" /\ Cardinality(marks') = Cardinality(marks) + 1)]_vars
\* What the status says and what is listed agree
Agree == q = None => \A t \in Tids : LET ask(path, s) == [srv |-> "m", path |-> path, p |-> <<<<"trust_mark_id", t>>, <<"sub", s>>>>] IN
    \A s \in {"a", "x"} : (Active \in Allowed(W, reg, changed, marks, now, ask("trust_mark_status", s), NoTok))
                          <=> (Ids({s}) \in Allowed(W, reg, changed, marks, now, ask("trust_mark_list", s), NoTok))
=============================================================================
