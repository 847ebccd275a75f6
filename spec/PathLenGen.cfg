SPECIFICATION Spec
CONSTANTS MaxLen = 5
 MaxEntries = 0
 Hosts <- oHosts
 Entries <- noEntries
 MPLs <- pMPLs
INVARIANT Emit
CHECK_DEADLOCK FALSE
