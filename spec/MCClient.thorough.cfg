SPECIFICATION Spec
CONSTANTS Rcs = {0, 1, 2, 3, 4, 5}
 Chs = {5, 200, 255}
 NMsgs = 3
 Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
PROPERTIES Connects OnGrant Quiet InOrder OnlyTicks Acks NoOtherAcks
