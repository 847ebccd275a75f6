------------------------------- MODULE CacheMC -------------------------------
(* What time does to what was collected.  One relation (a registers e): the  *)
(* federation changes its mind, the collecting entity caches what it is told *)
(* for as long as it is valid for Delta more, and verified chains until they *)
(* expire.                                                                   *)
EXTENDS Collect, TLC
CONSTANTS Edges2, Lives, Delta, MaxTime
VARIABLES now, reg, last, cache, used, chain, served
vars == <<now, reg, last, cache, used, chain, served>>
None == [exp |-> -1, reg |-> FALSE, at |-> -1]
Life == CHOOSE x \in Lives : \A y \in Lives : y <= x

Init == /\ now = 0 /\ reg = [e \in Edges2 |-> TRUE] /\ last = [e \in Edges2 |-> 0]
        /\ cache = [e \in Edges2 |-> None] /\ used = {} /\ chain = [exp |-> -1, docs |-> {}]
        /\ served = {}
Tick == /\ now < MaxTime /\ now' = now + 1
        /\ last' = [e \in Edges2 |-> IF reg[e] THEN now + 1 ELSE last[e]]
        /\ used' = {} /\ served' = {} /\ UNCHANGED <<reg, cache, chain>>
Change(e) == /\ reg' = [reg EXCEPT ![e] = ~reg[e]]
             /\ last' = [last EXCEPT ![e] = now]
             /\ used' = {} /\ served' = {} /\ UNCHANGED <<now, cache, chain>>
\* What collecting over edge e gives, at this moment
Doc(e, life) == IF cache[e] # None /\ Usable(cache[e], now, Delta) THEN cache[e]
                ELSE IF reg[e] THEN [exp |-> now + life, reg |-> TRUE, at |-> now] ELSE None
Collect(life) ==
    LET d == [e \in Edges2 |-> Doc(e, life)]
        all == \A e \in Edges2 : d[e] # None
    IN /\ cache' = d
       /\ used' = {d[e] : e \in Edges2} \ {None}
       /\ chain' = IF all THEN [exp |-> CHOOSE x \in {d[e].exp : e \in Edges2} : \A e \in Edges2 : x <= d[e].exp,
                                docs |-> {d[e] : e \in Edges2}]
                   ELSE chain
       /\ served' = {}
       /\ UNCHANGED <<now, reg, last>>
\* asked about the entity: what was verified before, if that has not expired
Serve == /\ chain.exp >= now
         /\ served' = chain.docs /\ used' = {} /\ UNCHANGED <<now, reg, last, cache, chain>>
Next == Tick \/ (\E e \in Edges2 : Change(e)) \/ (\E l \in Lives : Collect(l)) \/ Serve
Spec == Init /\ [][Next]_vars

\* nothing close to its end is used for a new chain unless it was received just now
Margin == \A d \in used : d.at = now \/ d.exp - now >= Delta
NoneExpired == \A d \in used \cup served : d.exp >= now
\* what is removed from the federation is not believed for longer than the life time of a statement
Stale == \A e \in Edges2 : \A d \in served : now - d.at <= Life
StaleCollect == \A d \in used : now - d.at <= (IF Life > Delta THEN Life - Delta ELSE 0)
=============================================================================
