--------------------------------- MODULE FilesMC ---------------------------------
(* The way statements are made: an object that makes them for one issuer reads keys when they are *)
(* first needed, and keeps them, under the name of whose they are. An object may be told who it   *)
(* makes statements for when it is made or later.                                                 *)
EXTENDS Files, TLC
CONSTANTS Names, Keys, Changes
VARIABLES fs, obj, kept, said, n, seen
vars == <<fs, obj, kept, said, n, seen>>
Dirs == [keys : SUBSET Keys, md : {"", "m"}, pol : {""}, con : {""}, hints : {<<>>}]
None == [iss |-> ""]
Empty == [x \in {} |-> ""]
Init == fs = Empty /\ obj = "" /\ kept = Empty /\ said = None /\ n = 0 /\ seen = [p \in Names \X Names |-> {}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Write == \E p \in Names \X Names, d \in Dirs :
    n < Changes /\ n' = n + 1 /\ fs' = Put(fs, p, d) /\ seen' = [seen EXCEPT ![p] = @ \cup {d.keys}] /\ UNCHANGED <<obj, kept>> /\ said' = None
Drop == \E p \in DOMAIN fs : n < Changes /\ n' = n + 1 /\ fs' = [x \in DOMAIN fs \ {p} |-> fs[x]] /\ UNCHANGED <<obj, kept, seen>> /\ said' = None
New == \E i \in Names : obj = "" /\ obj' = i /\ kept' = Empty /\ said' = None /\ UNCHANGED <<fs, n, seen>>
\* What an object reads
Read(k, i, s) == IF s \in DOMAIN k \/ <<i, s>> \notin DOMAIN fs THEN k ELSE Put(k, s, fs[<<i, s>>].keys)
Create == \E s \in Names :
    LET i == obj
        k == Read(Read(kept, i, i), i, s) IN
    /\ i # "" /\ kept' = k /\ UNCHANGED <<fs, obj, n, seen>>
    /\ said' = IF <<i, s>> \in DOMAIN fs /\ i \in DOMAIN k /\ s \in DOMAIN k /\ k[s] # {} /\ \E x \in k[i] : CanSign(x)
               THEN [st |-> Says(fs, i, s, [life |-> 0, md |-> ""], k[s]), by |-> (CHOOSE x \in k[i] : CanSign(x)).id, iss |-> i, sub |-> s]
               ELSE None
Next == Write \/ Drop \/ New \/ Create
Spec == Init /\ [][Next]_vars
\* Keys that are published are the subject's, whoever's were read before, and what signs is the issuer's
Right == said # None =>
    /\ \E ks \in seen[<<said.iss, said.sub>>] : said.st.keys = Public(ks)
    /\ \E ks \in seen[<<said.iss, said.iss>>] : SignedBy(ks, said.by)
    /\ said.st.md = fs[<<said.iss, said.sub>>].md
NoSecrets == said # None => \A k \in Keys : k.kind = "oct" => k.id \notin said.st.keys
KeysDef == {[id |-> "r", kind |-> "rsa"], [id |-> "e", kind |-> "ec"], [id |-> "o", kind |-> "oct"]}
=============================================================================
