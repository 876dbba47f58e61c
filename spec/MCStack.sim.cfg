SPECIFICATION Spec
CONSTANTS Addrs = {1, 2, 3, 9, 2305, 65535}
 Asaps = {1, 2, 3, 9}
 Dpts = {"DPT_Switch", "DPT_Control_Dimming", "DPT_Brightness", "DPT_Value_Temp", "DPTSetupClima"}
 Ias = {9, 2, 4353}
 Cap = 4
 Depth = 60
 Emit = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Inv
PROPERTIES Reach Goes Own AsNew Counters
