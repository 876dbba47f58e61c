SPECIFICATION Spec
INVARIANTS Shape Again
PROPERTIES Reads Leaves Bitwise Kinds Twice
CONSTANTS Emit = TRUE
  Starts = {1}
  Values = {0, 65535}
VIEW OnlyFrame
CHECK_DEADLOCK FALSE
