SPECIFICATION Spec
CONSTANTS N = 3
 Set <- MSet
INVARIANTS Vac
CHECK_DEADLOCK FALSE
