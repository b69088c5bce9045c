SPECIFICATION Spec
CONSTANTS Gran = 1000 Eps = 0 Late = 1000 IO = 3000 MaxN = 2 MaxT = 12000 Bug = "none" Depth = 4
INVARIANTS Vac
CHECK_DEADLOCK FALSE
