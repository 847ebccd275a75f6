------------------------------- MODULE ChainGen -------------------------------
EXTENDS ChainMC, Json
Emit == (Len(chain) > 1 /\ Shape(chain) /\ now = 0 /\ ~accepted) => PrintT("CASE " \o ToJson([chain |-> chain]))
=============================================================================
