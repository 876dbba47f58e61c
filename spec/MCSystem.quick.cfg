SPECIFICATION Spec
CONSTANTS Work <- WorkQuick
 Room = 1
 Pieces = {}
CHECK_DEADLOCK FALSE
INVARIANTS Delivered Ordered Complete
