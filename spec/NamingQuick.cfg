SPECIFICATION Spec
CONSTANTS MaxLen = 2
 MaxEntries = 1
 Hosts <- qHosts
 Entries <- qEntries
 MPLs <- qMPLs
INVARIANT Agree
PROPERTIES NeverWidens ExclusionsGrow OnceBadAlwaysBad LengthShrinks
CHECK_DEADLOCK FALSE
