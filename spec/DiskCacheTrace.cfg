SPECIFICATION Spec

INVARIANTS Acc
CHECK_DEADLOCK FALSE
