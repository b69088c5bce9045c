SPECIFICATION GSpec
CONSTANTS Gran = 1000 Eps = 0 Late = 1000 IO = 3000 MaxN = 2 MaxT = 6000 Bug = "none" Depth = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
