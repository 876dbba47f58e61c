SPECIFICATION Spec
VIEW View
INVARIANTS Fresh Partial SplitFree
CONSTANTS MaxBuf = 1
 Pairs = TRUE
 Emit = TRUE
CHECK_DEADLOCK FALSE
