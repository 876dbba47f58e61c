SPECIFICATION FairSpec
CONSTANTS ToClient = 3
 ToGateway = 2
 Start = 254
 Room = 2
 Reorder = FALSE
 HeadLoss = TRUE
 Bug = "ack carries the expected counter"
 Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS ExactlyOnce OtherWay Believes Counters
PROPERTIES AllArrive
