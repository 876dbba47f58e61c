SPECIFICATION Spec
INVARIANTS Survives EachReport EachLine
CONSTANTS
 Clients = {1,2}
 Fds = {1,2}
 Slots = {1,2}
 Reports = 3
 Pieces <- P3
 Aborts = 1
 Stallers = 2
 Room = 1
 Bug = "none"
CHECK_DEADLOCK FALSE
