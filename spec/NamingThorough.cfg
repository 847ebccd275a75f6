SPECIFICATION Spec
CONSTANTS MaxLen = 3
 MaxEntries = 1
 Hosts <- qHosts
 Entries <- gEntries
 MPLs <- qMPLs
INVARIANT Agree
PROPERTIES NeverWidens ExclusionsGrow OnceBadAlwaysBad LengthShrinks
CHECK_DEADLOCK FALSE
