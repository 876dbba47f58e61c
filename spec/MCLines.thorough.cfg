SPECIFICATION Spec
CONSTANTS Kinds = {"on", "off", "feature", "cut", "words", "bytes", "empty"}
 N = 3
 NMsgs = 2
 Emit = TRUE
VIEW All
CHECK_DEADLOCK FALSE
INVARIANTS Inv Counted
PROPERTIES Apart
