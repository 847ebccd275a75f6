------------------------------- MODULE Critical -------------------------------
(* What to do with things in an entity statement that one does not know.     *)
(*                                                                           *)
(* Statement: [claims  |-> Seq(name)      claims there are in the statement, *)
(*             hascrit |-> BOOLEAN, crit |-> Seq(name),                      *)
(*             ops     |-> Seq(operator)  policy operators that are used,    *)
(*             hasplc  |-> BOOLEAN, plc  |-> Seq(operator)]                  *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in 1..Len(s)}

StandardClaims ==
    {"iss", "sub", "aud", "exp", "nbf", "iat", "jti", "jwks", "authority_hints", "metadata",
     "metadata_policy", "constraints", "crit", "policy_language_crit", "trust_marks",
     "trust_anchor_id"}
StandardOps == {"subset_of", "one_of", "superset_of", "add", "value", "default", "essential"}

\* A list that is empty, or that names something that is not there or that everybody has to
\* understand anyway, is not well formed. Whether that is accepted is not decided here.
\* "ok": has to be accepted, "bad": has to be refused, "any": nothing is said
ClaimVerdict(st, known) ==
    LET extra == Range(st.claims) \ StandardClaims
        must  == Range(st.crit) \cap extra
    IN  IF ~st.hascrit THEN "ok"
        ELSE IF ~(must \subseteq known) THEN "bad"
        ELSE IF st.crit # <<>> /\ Range(st.crit) \subseteq extra THEN "ok" ELSE "any"

OpVerdict(st, known) ==
    LET extra == Range(st.ops) \ StandardOps
        must  == Range(st.plc) \cap extra
    IN  IF ~st.hasplc THEN "ok"
        ELSE IF ~(must \subseteq known) THEN "bad"
        ELSE IF Range(st.plc) \subseteq extra THEN "ok" ELSE "any"

Verdict(st, known, knownops) ==
    LET v == {ClaimVerdict(st, known), OpVerdict(st, knownops)} IN
    IF "bad" \in v THEN "bad" ELSE IF "any" \in v THEN "any" ELSE "ok"

\* a chain of statements: any of them can be the one
ChainVerdict(sts, known, knownops) ==
    LET v == {Verdict(sts[i], known, knownops) : i \in 1..Len(sts)} IN
    IF "bad" \in v THEN "bad" ELSE IF "any" \in v THEN "any" ELSE "ok"
=============================================================================
