SPECIFICATION Spec
CONSTANT M = 5
INVARIANTS Vac
CHECK_DEADLOCK FALSE
