SPECIFICATION Spec
CONSTANTS Addrs = {1,2}
 Asaps = {1,2}
 Cap = 1
 Dpts = {}
 MaxArgs = 2
 Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Inv Contents Relation Lookups
PROPERTIES FailedKeeps Others
