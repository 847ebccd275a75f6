---- MODULE NamingMCdef ----
EXTENDS NamingMC
h1 == <<"example", "com">>
h2 == <<"a", "example", "com">>
h3 == <<"b", "a", "example", "com">>
h4 == <<"other", "org">>
e1 == [dot |-> TRUE, labels |-> <<"example", "com">>]
e2 == [dot |-> FALSE, labels |-> <<"a", "example", "com">>]
e3 == [dot |-> FALSE, labels |-> <<"example", "com">>]
qHosts == {h1, h2, h4}
qEntries == {e1, e2, e3}
gEntries == {e1, e2}
noEntries == {}
oHosts == {h1}
pMPLs == {-1, 0, 1, 2, 4}
qMPLs == {-1, 0, 1}
tHosts == {h1, h2, h3, h4}
gMPLs == {-1, 0}
tMPLs == {-1, 0, 1, 2}
====
