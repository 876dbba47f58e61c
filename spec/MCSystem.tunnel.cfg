SPECIFICATION Spec
CONSTANTS Work <- WorkTunnel
 Room = 2
 Pieces = {}
CHECK_DEADLOCK FALSE
INVARIANTS Delivered Ordered Complete
