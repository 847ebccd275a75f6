------------------------------- MODULE Naming -------------------------------
(* Naming constraints and path length of a trust chain.                      *)
(*                                                                           *)
(* A host is a sequence of labels, most significant label last:              *)
(* <<"a","example","com">>.  An entry of a naming constraint is a record     *)
(* [dot |-> BOOLEAN, labels |-> host].  An entry without a leading dot       *)
(* covers the host and everything below it, one with a leading dot only what *)
(* is below it.                                                              *)
(*                                                                           *)
(* A chain is a sequence of statements, the trust anchor's first and the     *)
(* leaf's own last.  What matters here of a statement is                     *)
(*   [host |-> host of its subject, mpl |-> -1 or max_path_length,           *)
(*    permitted |-> Seq(entry), excluded |-> Seq(entry)]                     *)
(* An empty list is no restriction.                                          *)
EXTENDS Integers, Sequences, FiniteSets

IsSuffix(suf, host) ==
    /\ Len(suf) <= Len(host)
    /\ \A i \in 1..Len(suf) : suf[Len(suf) + 1 - i] = host[Len(host) + 1 - i]

Covers(e, host) ==
    /\ IsSuffix(e.labels, host)
    /\ e.dot => Len(host) > Len(e.labels)

\* every host covered by entry a is covered by entry b
Within(a, b) ==
    /\ IsSuffix(b.labels, a.labels)
    /\ b.dot => (a.dot \/ Len(a.labels) > Len(b.labels))

Range(s) == {s[i] : i \in 1..Len(s)}

\* What is permitted after a statement that permits `new`, when `old` was permitted before.
\* A new entry only counts where it is inside something that was permitted; there it replaces it.
MergePermitted(old, new) ==
    IF new = {} THEN old
    ELSE IF old = {} THEN new
    ELSE UNION { LET in == {n \in new : Within(n, o)} IN IF in = {} THEN {o} ELSE in : o \in old }

\* What is excluded only grows
MergeExcluded(old, new) == old \cup new

NameOK(host, perm, excl) ==
    /\ \A e \in excl : ~Covers(e, host)
    /\ perm = {} \/ \E e \in perm : Covers(e, host)

\* how many more subordinate statements are allowed: -1 is any number
MinLen(cur, mpl) == IF cur = -1 THEN mpl ELSE IF mpl = -1 THEN cur ELSE IF mpl < cur THEN mpl ELSE cur

-----------------------------------------------------------------------------
(* The walk down the chain, as a function: state after statements 1..i       *)

Start == [perm |-> {}, excl |-> {}, left |-> -1, ok |-> TRUE, why |-> {}]

\* One subordinate statement (not the leaf's own)
WalkStatement(w, st) ==
    LET perm == MergePermitted(w.perm, Range(st.permitted))
        excl == MergeExcluded(w.excl, Range(st.excluded))
        len  == IF w.left = 0 THEN FALSE ELSE TRUE
        left == IF w.left = -1 THEN st.mpl ELSE MinLen(w.left - 1, st.mpl)
        name == NameOK(st.host, perm, excl)
    IN [perm |-> perm, excl |-> excl,
        left |-> IF len THEN left ELSE 0,
        ok |-> w.ok /\ len /\ name,
        why |-> w.why \cup (IF len THEN {} ELSE {"path_length"}) \cup (IF name THEN {} ELSE {"name"})]

\* The leaf's own statement can not restrict anything, it is only bound by its superiors
WalkLeaf(w, st) ==
    LET name == NameOK(st.host, w.perm, w.excl)
    IN [w EXCEPT !.ok = w.ok /\ name, !.why = w.why \cup (IF name THEN {} ELSE {"name"})]

Walk(chain) ==
    LET f[i \in 0..Len(chain)] ==
            IF i = 0 THEN Start
            ELSE IF i = Len(chain) THEN WalkLeaf(f[i-1], chain[i])
            ELSE WalkStatement(f[i-1], chain[i])
    IN f[Len(chain)]

-----------------------------------------------------------------------------
(* What the walk is meant to decide, said without a walk                     *)

\* max_path_length m in statement i: at most m further subordinate statements below it
PathLengthOK(chain) ==
    \A i \in 1..Len(chain) - 1 : chain[i].mpl = -1 \/ Len(chain) - 1 - i <= chain[i].mpl

\* nobody at or below a statement that excludes a name has that name
ExclusionOK(chain) ==
    \A i \in 1..Len(chain) - 1 : \A j \in i..Len(chain) :
        \A e \in Range(chain[i].excluded) : ~Covers(e, chain[j].host)

\* the first statement that permits names binds everybody at or below it
PermissionOK(chain) ==
    \A i \in 1..Len(chain) - 1 :
        (/\ chain[i].permitted # <<>>
         /\ \A k \in 1..i-1 : chain[k].permitted = <<>>) =>
        \A j \in i..Len(chain) : \E e \in Range(chain[i].permitted) : Covers(e, chain[j].host)

\* and so does a subordinate that narrows an entry it replaces: whoever is under an entry it replaced
\* must be under one of the entries it replaced it with
=============================================================================
