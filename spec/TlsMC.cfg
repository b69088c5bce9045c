SPECIFICATION Spec
CONSTANTS
 Bug = ""
 Max = 3
 Q = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
