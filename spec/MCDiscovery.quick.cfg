SPECIFICATION Spec
CONSTANTS Datagrams = {"first", "second", "zero", "short", "request", "cut", "connect", "state", "words", "nothing"}
 Emit = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Asks Understands Exactly
