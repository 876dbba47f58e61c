SPECIFICATION Spec
CONSTANTS Calls = {1, 2}
 Rounds = 2
 Addresses = {5, 6}
INVARIANTS Alone Whole
PROPERTIES Ends
CHECK_DEADLOCK FALSE
