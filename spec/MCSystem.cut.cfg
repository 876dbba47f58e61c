SPECIFICATION Spec
CONSTANTS Work <- WorkCut
 Room = 1
 Pieces = {5}
CHECK_DEADLOCK FALSE
INVARIANTS Delivered Ordered Complete
