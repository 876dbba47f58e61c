SPECIFICATION Spec
INVARIANTS Shape Again
PROPERTIES Reads Leaves Bitwise Kinds Twice
CONSTANTS Emit = TRUE
  Starts = {1, 2, 3, 4}
  Values = {0, 65535, 4660}
VIEW OnlyFrame
CHECK_DEADLOCK FALSE
