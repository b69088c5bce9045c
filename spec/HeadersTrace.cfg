SPECIFICATION Spec
INVARIANT Acc
CHECK_DEADLOCK FALSE
