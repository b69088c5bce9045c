SPECIFICATION Spec
CONSTANTS
 Bug = "late"
 Max = 2
 Q = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
