SPECIFICATION Spec
VIEW View
INVARIANTS Fresh Partial SplitFree
CONSTANTS MaxBuf = 2
 Pairs = TRUE
 Emit = TRUE
CHECK_DEADLOCK FALSE
