SPECIFICATION Spec
CONSTANTS Rcs <- R256
 Lcs = {0, 1, 128, 255}
 Chs = {3, 255}
 Offsets <- R256
 Emit = FALSE
VIEW View
CHECK_DEADLOCK FALSE
PROPERTIES Expected AdvancesByOne AckNames SendCounter RequestCounter Channel Granted CoreChannel Delivery
