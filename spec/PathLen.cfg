SPECIFICATION Spec
CONSTANTS MaxLen = 6
 MaxEntries = 0
 Hosts <- oHosts
 Entries <- noEntries
 MPLs <- pMPLs
INVARIANT Agree
PROPERTIES LengthShrinks OnceBadAlwaysBad
CHECK_DEADLOCK FALSE
