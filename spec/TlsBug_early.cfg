SPECIFICATION Spec
CONSTANTS
 Bug = "early"
 Max = 2
 Q = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
