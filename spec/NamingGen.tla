------------------------------ MODULE NamingGen ------------------------------
(* Every chain of the small model, to be run on the implementation           *)
EXTENDS NamingMCdef, Json
Emit == done => PrintT("CASE " \o ToJson([chain |-> chain]))
=============================================================================
