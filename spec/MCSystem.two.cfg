SPECIFICATION Spec
CONSTANTS Work <- WorkTwo
 Room = 1
 Pieces = {}
CHECK_DEADLOCK FALSE
INVARIANTS Delivered Ordered Complete
