SPECIFICATION Spec
CONSTANTS
 Bug = ""
 Max = 3
 Q = 2
INVARIANT Vac
CHECK_DEADLOCK FALSE
