--------------------------------- MODULE Build ----------------------------------
(* Entities that live in the same process, built from specifications some of which they share. *)
(* Each one is what it was built from and what has been done to it since.                      *)
EXTENDS Integers, Sequences, FiniteSets
Range(q) == {q[i] : i \in DOMAIN q}
DefaultEndpoints == {"entity_configuration", "fetch", "list"}
DefaultServices == {"entity_configuration", "entity_statement", "resolve", "list"}
DefaultFunctions == {"trust_chain_collector", "verifier", "policy", "trust_mark_verifier"}
DefaultDelta == 600
MarkEndpoints == {"trust_mark", "trust_mark_list", "trust_mark_status"}
Or(given, default) == IF given = {} THEN default ELSE given
\* What an entity is right after it was built from configuration c
Fresh(c) ==
    [eps |-> Or(c.eps, DefaultEndpoints) \cup (IF c.life # {} THEN MarkEndpoints ELSE {}),
     srv |-> Or(c.srv, DefaultServices),
     fun |-> Or(c.fun, DefaultFunctions),
     anchors |-> c.anchors, hints |-> c.hints, marks |-> c.marks, subs |-> c.subs, pols |-> c.pols, org |-> c.org,
     delta |-> IF c.delta = 0 THEN DefaultDelta ELSE c.delta,
     verify |-> c.verify,
     life |-> c.life,   \* Lifetimes of the marks it issues: a set of [id, life]
     keys |-> {}]       \* Keys it got after it was built
\* What is done to an entity
Effect(e, op, x) ==
    CASE op = "anchor" -> [e EXCEPT !.anchors = @ \cup {x}]
      [] op = "mark" -> [e EXCEPT !.marks = Append(@, x)]
      [] op = "sub" -> [e EXCEPT !.subs = @ \cup {x}]
      [] op = "unsub" -> [e EXCEPT !.subs = @ \ {x}]
      [] op = "policy" -> [e EXCEPT !.pols = @ \cup {x}]
      [] op = "key" -> [e EXCEPT !.keys = @ \cup {x}]
      [] op = "delta" -> [e EXCEPT !.delta = x]
      [] OTHER -> e
=============================================================================
