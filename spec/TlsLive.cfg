SPECIFICATION Spec
CONSTANTS
 Bug = ""
 Max = 2
 Q = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
PROPERTIES AllArrives Ends
