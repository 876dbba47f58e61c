SPECIFICATION Spec
CONSTANTS Addrs = {1, 2, 3}
 Asaps = {1, 2}
 Cap = 2
 Dpts = {}
 MaxArgs = 2
 Emit = FALSE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Inv Contents Relation Lookups
PROPERTIES FailedKeeps Others
