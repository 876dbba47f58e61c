SPECIFICATION Spec
CONSTANTS Addrs = {1}
 Asaps = {1,2}
 Cap = 1
 Dpts = {"DPT_Switch", "DPT_Brightness"}
 MaxArgs = 1
 Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Inv Contents Relation Lookups
PROPERTIES FailedKeeps Others
