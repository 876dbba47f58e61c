SPECIFICATION Spec
CONSTANTS Max = 3
 Kinds = {"telegram", "request", "lookup", "device"}
 Emit = TRUE
INVARIANTS Stays TablesOwn Apart
VIEW View
CHECK_DEADLOCK FALSE
