SPECIFICATION Spec
CONSTANTS Rcs = {0, 1, 127, 255}
 Lcs = {0, 128, 255}
 Chs = {3, 255}
 Offsets <- R256
 Emit = FALSE
VIEW View
CHECK_DEADLOCK FALSE
PROPERTIES Expected AdvancesByOne AckNames SendCounter RequestCounter Channel Granted CoreChannel Delivery
