SPECIFICATION Spec
CONSTANTS Kinds = {"on", "off", "feature", "foreign", "words", "bytes", "empty"}
 N = 2
 NMsgs = 2
 Emit = TRUE
VIEW All
CHECK_DEADLOCK FALSE
INVARIANTS Inv Counted
PROPERTIES Apart
