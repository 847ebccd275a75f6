---------------------------------- MODULE Self ----------------------------------
(* What an entity says about itself. Hints and trust marks are configured as lists, files or  *)
(* functions; a statement has what they are when it is made.                                  *)
EXTENDS Integers, Sequences, FiniteSets
Range(q) == {q[i] : i \in DOMAIN q}
DefaultLife == 86400
\* A configured source: how it is configured and its value
Source(how, v) == [how |-> how, v |-> v]
Nothing == Source("list", <<>>)
\* What is left out in a statement is written <<"-">>
Stated(src) == IF src.v = <<>> THEN {<<"-">>, <<>>} ELSE {src.v}
\* The statement an entity me with these keys makes at now
Statement(me, keys, hints, marks, types, md, now, life) ==
    [iss |-> me, sub |-> me, keys |-> keys, hints |-> hints.v, marks |-> marks.v, types |-> types, md |-> md, iat |-> now,
     exp |-> now + (IF life = 0 THEN DefaultLife ELSE life)]
=============================================================================
