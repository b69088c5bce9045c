SPECIFICATION Spec
CONSTANTS
 Bug = "foreign"
 Max = 2
 Q = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
