SPECIFICATION Spec
INVARIANTS Survives EachReport EachLine
CONSTANTS
 Clients = {1,2}
 Fds = {1,2}
 Slots = {1,2}
 Reports = 2
 Pieces <- P3
 Aborts = 1
 Stallers = 1
 Room = 1
 Bug = "shared"
CHECK_DEADLOCK FALSE
