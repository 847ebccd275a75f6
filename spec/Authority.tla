------------------------------- MODULE Authority -------------------------------
(* What a superior has registered about its subordinates, and the statements   *)
(* and lists it answers with.                                                  *)
(* reg: set of records [sub, jwks, types, im, hints, md, mdp, cons, ext]       *)
(*   md, mdp: sets of [t, v] (entity type, what is said for it); hints: the    *)
(*   authority hints, <<>> if there are none; cons: constraints, "" if none;   *)
(*   ext: the other claims it was registered with                              *)
(* pols: set of [id, md, mdp]: policies for one subordinate or one entity type *)
(*   (in that case t is the type itself).                                      *)
EXTENDS Integers, Sequences, FiniteSets
Range(q) == {q[i] : i \in DOMAIN q}

Registered(reg, sub) == \E r \in reg : r.sub = sub
Info(reg, sub) == CHOOSE r \in reg : r.sub = sub
PolFor(pols, id) == {p \in pols : p.id = id}
OfType(r, pols) == {p \in pols : p.id \in r.types}
Types(s) == {x.t : x \in s}
\* What the policy says goes before what is registered, type by type if it is for a type
Specific(r, pols) == LET p == CHOOSE x \in PolFor(pols, r.sub) : TRUE IN
    [md |-> IF p.hasmd THEN p.md ELSE r.md, mdp |-> IF p.hasmdp THEN p.mdp ELSE r.mdp]
ByType(r, pols, part(_)) ==
    UNION {part(p) : p \in OfType(r, pols)}
Stated(r, pols) ==
    IF PolFor(pols, r.sub) # {} THEN Specific(r, pols)
    ELSE LET m == ByType(r, pols, LAMBDA p : p.md)
             q == ByType(r, pols, LAMBDA p : p.mdp)
         IN [md |-> IF m # {} THEN m ELSE r.md, mdp |-> IF q # {} THEN q ELSE r.mdp]
\* Registered metadata together with metadata for its types: which one counts is left open
Open(r, pols) ==
    /\ PolFor(pols, r.sub) = {}
    /\ \/ r.md # {} /\ ByType(r, pols, LAMBDA p : p.md) # {}
       \/ r.mdp # {} /\ ByType(r, pols, LAMBDA p : p.mdp) # {}

Statement(reg, pols, me, sub) ==
    LET r == Info(reg, sub) s == Stated(r, pols) IN
    [iss |-> me, sub |-> sub, jwks |-> r.jwks, md |-> s.md, mdp |-> s.mdp,
     hints |-> IF r.hints = <<>> THEN <<me>> ELSE r.hints, cons |-> r.cons, ext |-> r.ext]

\* q: [type, im, marked, mark]: "" or FALSE when not asked for; marks: set of [sub, marks]
Listed(reg, marks, q) ==
    {r.sub : r \in {x \in reg :
        /\ q.type # "" => q.type \in x.types
        /\ q.im => x.im
        /\ q.marked => \E m \in marks : m.sub = x.sub /\ m.marks # {}
        /\ q.mark # "" => \E m \in marks : m.sub = x.sub /\ q.mark \in m.marks}}
=============================================================================
