SPECIFICATION Spec
CONSTANTS
 Bug = ""
INVARIANTS Acc
CHECK_DEADLOCK FALSE
