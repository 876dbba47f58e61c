SPECIFICATION Spec
CONSTANTS Max = 2
 Kinds = {"telegram", "request", "lookup", "device"}
 Emit = TRUE
INVARIANTS Stays TablesOwn Apart
VIEW View
CHECK_DEADLOCK FALSE
