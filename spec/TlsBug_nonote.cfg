SPECIFICATION Spec
CONSTANTS
 Bug = "nonote"
 Max = 2
 Q = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
