SPECIFICATION FairSpec
CONSTANTS ToClient = 3
 ToGateway = 2
 Start = 254
 Room = 2
 Reorder = FALSE
 HeadLoss = TRUE
 Bug = "delivers repetitions"
 Emit = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS ExactlyOnce OtherWay Believes Counters
PROPERTIES AllArrive
