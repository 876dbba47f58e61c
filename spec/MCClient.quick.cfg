SPECIFICATION Spec
CONSTANTS Rcs = {0, 1, 2}
 Chs = {5, 200}
 NMsgs = 2
 Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
PROPERTIES Connects OnGrant Quiet InOrder OnlyTicks Acks NoOtherAcks
