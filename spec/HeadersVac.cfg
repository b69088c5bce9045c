SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Vac
CHECK_DEADLOCK FALSE
