---------------------------------- MODULE Files ----------------------------------
(* Statements made from what is written in files: one directory for each pair of issuer and subject. *)
EXTENDS Integers, Sequences, FiniteSets
Range(q) == {q[i] : i \in DOMAIN q}
Lifetime == 86400
\* A directory: [keys: set of [id, kind], md, pol, con: string, "" if there is none, hints: sequence]
Symmetric(k) == k.kind = "oct"
CanSign(k) == k.kind = "rsa"
Public(ks) == {k.id : k \in {x \in ks : ~Symmetric(x)}}
\* Whether something can be said by i about s
Known(fs, i, s) == <<i, s>> \in DOMAIN fs /\ <<i, i>> \in DOMAIN fs
Complete(fs, i, s) == Known(fs, i, s) /\ fs[<<i, s>>].keys # {} /\ \E k \in fs[<<i, i>>].keys : CanSign(k)
\* Statements. given: what the one who asks adds (life = 0 and md = "" if nothing). ks, sks: the keys of the subject and issuer
Says(fs, i, s, given, ks) ==
    LET d == fs[<<i, s>>] IN
    [iss |-> i, sub |-> s, keys |-> Public(ks), md |-> IF given.md # "" THEN given.md ELSE d.md, pol |-> d.pol, con |-> d.con,
     hints |-> d.hints, life |-> IF given.life = 0 THEN Lifetime ELSE given.life]
\* The signature
SignedBy(sks, kid) == \E k \in sks : k.id = kid /\ CanSign(k)
\* Configurations that refer to files: trees, where values are strings, lists or dictionaries. has: what the files have
RECURSIVE Loaded(_, _)
Loaded(v, has) ==
    CASE v.t = "file" -> IF v.v \in DOMAIN has THEN has[v.v] ELSE [t |-> "none"]
      [] v.t = "dict" -> [t |-> "dict", v |-> [i \in DOMAIN v.v |-> [k |-> v.v[i].k, v |-> Loaded(v.v[i].v, has)]]]
      [] v.t = "list" -> [t |-> "list", v |-> [i \in DOMAIN v.v |-> Loaded(v.v[i], has)]]
      [] OTHER -> v
=============================================================================
