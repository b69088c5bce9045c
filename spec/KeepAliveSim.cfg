SPECIFICATION GSpec
CONSTANTS Gran = 1000 Eps = 0 Late = 1000 IO = 3000 MaxN = 2 MaxT = 9000 Bug = "none" Depth = 9
INVARIANTS Emit
CHECK_DEADLOCK FALSE
