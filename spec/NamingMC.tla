------------------------------ MODULE NamingMC ------------------------------
(* The design: walking down every chain that can be built from a few hosts   *)
(* and constraints, one statement at the time.                               *)
EXTENDS Naming, TLC

CONSTANTS MaxLen, Hosts, Entries, MPLs, MaxEntries

Lists(S) == {<<>>} \cup {<<e>> : e \in S} \cup
            (IF MaxEntries >= 2 THEN {<<e, f>> : e \in S, f \in S} ELSE {})
Statements == [host : Hosts, mpl : MPLs, permitted : Lists(Entries), excluded : Lists(Entries)]

VARIABLES chain, w, done
vars == <<chain, w, done>>

Init == chain = <<>> /\ w = Start /\ done = FALSE

AddStatement(st) ==
    /\ ~done /\ Len(chain) < MaxLen
    /\ chain' = Append(chain, st)
    /\ w' = WalkStatement(w, st)
    /\ done' = FALSE

AddLeaf(h) ==
    /\ ~done /\ Len(chain) > 0
    /\ LET st == [host |-> h, mpl |-> -1, permitted |-> <<>>, excluded |-> <<>>]
       IN chain' = Append(chain, st) /\ w' = WalkLeaf(w, st)
    /\ done' = TRUE

Next == (\E st \in Statements : AddStatement(st)) \/ (\E h \in Hosts : AddLeaf(h))
Spec == Init /\ [][Next]_vars

\* a walk that goes on decides what the declarative reading says
Agree == done => /\ w = Walk(chain)
                 /\ ("path_length" \notin w.why) = PathLengthOK(chain)
                 /\ w.ok => ExclusionOK(chain) /\ PermissionOK(chain)
                 /\ w.ok => w.why = {}

\* someone that was not allowed never becomes allowed further down
NeverWidens ==
    [][\A h \in Hosts : (~done' /\ NameOK(h, w'.perm, w'.excl)) => NameOK(h, w.perm, w.excl)]_vars
ExclusionsGrow == [][w.excl \subseteq w'.excl]_vars
OnceBadAlwaysBad == [][~w.ok => ~w'.ok]_vars
LengthShrinks == [][w.left # -1 => (w'.left # -1 /\ (~done' => (w'.left < w.left \/ w.left = 0)))]_vars
=============================================================================
