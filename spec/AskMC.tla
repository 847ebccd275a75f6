--------------------------------- MODULE AskMC ---------------------------------
(* A client among hosts that reply anything they can: old and new statements of their own, of  *)
(* others, forged ones. Keys are learned over time. Trust anchors' keys are configured.         *)
EXTENDS Ask, TLC
CONSTANTS Ents, Keys, Owner, MaxNow, Lifes
VARIABLES now, known, cache, out
vars == <<now, known, cache, out>>
OwnerDef == [k \in Keys |-> CASE k = "t1" -> "t" [] k = "i1" -> "i" [] OTHER -> "z"]
LifesDef == {1, 602}
Own == {<<e, k>> \in Ents \X Keys : Owner[k] = e}
Docs == [n : 1..1, status : {200, 404}, form : {"signed", "tampered", "none", "plain"}, signer : Keys, iss : Ents, sub : Ents,
         iat : 0..MaxNow, exp : Lifes, ctype : {"", "json"}, kid : {TRUE}]
\* What can be served: a signature with the key of someone that does what it is told
Replies(h) == {d \in Docs : d.iat <= now}
Init == now = 0 /\ known = [e \in Ents |-> {}] /\ cache = [e \in Ents |-> NoDoc] /\ out = [kind |-> "no"]
Learn == \E x \in Own : x[2] \notin known[x[1]] /\ known' = [known EXCEPT ![x[1]] = @ \cup {x[2]}] /\ UNCHANGED <<now, cache>> /\ out' = [kind |-> "no"]
Config == \E a \in Ents, r \in Replies(0) :
    /\ UNCHANGED <<now, known>>
    /\ IF Accept(r, a, a, now, known) THEN cache' = Remember(cache, r) /\ out' = [kind |-> "config", asked |-> a, about |-> a, doc |-> r]
       ELSE UNCHANGED cache /\ out' = [kind |-> "no"]
Statement == \E a \in Ents, b \in Ents, r \in Replies(0) :
    /\ First("statement", cache[a], now) = {}
    /\ UNCHANGED <<now, known, cache>>
    /\ out' = IF Accept(r, a, b, now, known) THEN [kind |-> "statement", asked |-> a, about |-> b, doc |-> r] ELSE [kind |-> "no"]
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<known, cache>> /\ out' = [kind |-> "no"]
Next == Learn \/ Config \/ Statement \/ Tick
Spec == Init /\ [][Next]_vars
\* Whatever is answered with was signed by the one asked, whose key had been learned, about the one asked about
Authentic == out.kind # "no" => /\ Owner[out.doc.signer] = out.asked /\ out.doc.iss = out.asked /\ out.doc.sub = out.about
                                /\ out.doc.form = "signed" /\ out.doc.exp >= now
Remembered == \A e \in Ents : cache[e].n # 0 => /\ cache[e].iss = e /\ cache[e].sub = e /\ Owner[cache[e].signer] = e
                                                /\ cache[e].form = "signed"
\* No one else decides where the next question goes
Directed == \A e \in Ents : Fresh(cache[e], now) => Owner[cache[e].signer] = e /\ now < cache[e].exp
=============================================================================
