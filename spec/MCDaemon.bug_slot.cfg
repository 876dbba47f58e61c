SPECIFICATION Spec
INVARIANTS Survives EachReport EachLine
CONSTANTS
 Clients = {1,2,3}
 Fds = {1,2,3}
 Slots = {1,2,3}
 Reports = 2
 Pieces <- P3
 Aborts = 1
 Stallers = 1
 Room = 1
 Bug = "slot"
CHECK_DEADLOCK FALSE
