SPECIFICATION Spec
CONSTANTS ToClient = 3
 ToGateway = 1
 Start = 254
 Room = 2
 Reorder = FALSE
 HeadLoss = FALSE
 Bug = "none"
 Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS ExactlyOnce OtherWay Believes Counters

