---------------------------------- MODULE Auto ----------------------------------
(* Automatic registration. Entities in a world also have: own, types, uris, app (the keys of   *)
(* the application). What a client is registered as: [anchor, md, uris, app].                  *)
(* A provided chain: sequence of [iss, sub, signer, jwks, exp, tampered, add, own, types,      *)
(* uris, app], that of the client itself first, the anchor's last.                             *)
EXTENDS Register
Result(x, g, type) == [anchor |-> g.anchor, md |-> {y.v : y \in Metadata(x, g, type)}, uris |-> Range(x.uris), app |-> Range(x.app)]
\* What can be found out about e in the world w
Discovered(w, e, type) ==
    UNION {{Result(x, g, type) : g \in Grants(w, e, x.signer, Range(x.hints), {}, {})}
           : x \in {y \in EntsOf(w, e) : type \in Range(y.types)}}
Proves(c, e, anchors, now) ==
    LET n == Len(c) IN
    /\ c[1].iss = e /\ c[1].sub = e
    /\ \A i \in 1..n : ~c[i].tampered /\ c[i].exp >= now
    /\ \A i \in 1..n - 1 : c[i].iss = c[i + 1].sub /\ c[i].signer \in Range(c[i + 1].jwks)
    /\ \E a \in Range(anchors) : a.id = c[n].iss /\ c[n].signer \in Range(a.keys)
\* What a provided chain proves about e
Provided(c, e, anchors, now, type) ==
    IF Proves(c, e, anchors, now) /\ type \in Range(c[1].types)
    THEN {Result(c[1], [anchor |-> c[Len(c)].iss, add |-> UNION {Range(c[i].add) : i \in DOMAIN c}], type)}
    ELSE {}
Known(clients, e) == \E c \in clients : c.id = e /\ ~c.auto
\* What e may be registered as, when it asks and shows c
May(w, clients, e, c, anchors, now, type, auto) ==
    IF ~auto \/ Known(clients, e) THEN {}
    ELSE IF c = <<>> THEN Discovered(w, e, type) ELSE Provided(c, e, anchors, now, type)
=============================================================================
