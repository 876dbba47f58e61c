SPECIFICATION Spec
CONSTANTS Calls = {1, 2, 3}
 Rounds = 1
 Addresses = {5, 6}
INVARIANTS Alone Whole
PROPERTIES Ends
CHECK_DEADLOCK FALSE
