SPECIFICATION Spec
CONSTANTS Gran = 1000 Eps = 0 Late = 1000 IO = 3000 MaxN = 2 MaxT = 12000 Bug = "noflow" Depth = 4
INVARIANTS NeverBusy NeverOverdue AtMost NoKeep IdleOpen Bounded
PROPERTIES NeverEarly
CHECK_DEADLOCK FALSE
