SPECIFICATION Spec
CONSTANTS
 Bug = "cutnote"
 Max = 2
 Q = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
