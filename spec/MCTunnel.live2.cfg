SPECIFICATION FairSpec
CONSTANTS ToClient = 4
 ToGateway = 3
 Start = 254
 Room = 3
 Reorder = FALSE
 HeadLoss = TRUE
 Bug = "none"
 Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS ExactlyOnce OtherWay Believes Counters
PROPERTIES AllArrive
