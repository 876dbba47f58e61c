SPECIFICATION Spec
CONSTANTS ToClient = 4
 ToGateway = 4
 Start = 254
 Room = 4
 Reorder = TRUE
 HeadLoss = FALSE
 Bug = "none"
 Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS ExactlyOnce OtherWay Believes Counters

