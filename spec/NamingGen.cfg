SPECIFICATION Spec
CONSTANTS MaxLen = 2
 MaxEntries = 1
 Hosts <- qHosts
 Entries <- qEntries
 MPLs <- gMPLs
INVARIANT Emit
CHECK_DEADLOCK FALSE
