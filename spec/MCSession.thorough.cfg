SPECIFICATION Spec
CONSTANTS Rcs <- R256
 Lcs = {0, 255}
 Chs = {3}
 Offsets = {0, 1, 2, 3, 64, 127, 128, 129, 192, 253, 254, 255}
 Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
PROPERTIES Expected AdvancesByOne AckNames SendCounter RequestCounter Channel Granted CoreChannel Delivery
