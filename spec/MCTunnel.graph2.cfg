SPECIFICATION Spec
CONSTANTS ToClient = 3
 ToGateway = 3
 Start = 254
 Room = 2
 Reorder = TRUE
 HeadLoss = FALSE
 Bug = "none"
 Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS ExactlyOnce OtherWay Believes Counters

