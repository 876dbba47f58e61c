SPECIFICATION Spec
CONSTANTS Rcs = {0, 1, 254, 255}
 Lcs = {0, 1, 254, 255}
 Chs = {3, 255}
 Offsets = {0, 1, 2, 127, 128, 253, 254, 255}
 Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
PROPERTIES Expected AdvancesByOne AckNames SendCounter RequestCounter Channel Granted CoreChannel Delivery
