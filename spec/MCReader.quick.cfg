SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Lengths = {0, 1, 3, 4, 7, 8, 9, 13, 16}
  Seeds = {0, 5}
INVARIANTS Whole Left Same Endpoint
VIEW OnlyRest
CHECK_DEADLOCK FALSE
