SPECIFICATION Spec
CONSTANTS Gran = 1000 Eps = 200 Late = 4000
INVARIANTS Acc
CHECK_DEADLOCK FALSE
