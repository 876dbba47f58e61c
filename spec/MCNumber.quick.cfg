SPECIFICATION Spec
CONSTANTS
  Emit = TRUE
  Samples <- SamplesDef
INVARIANTS Made Given Value16 Nibbles Shown Reachable
VIEW Node
CHECK_DEADLOCK FALSE
