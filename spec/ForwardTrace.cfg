SPECIFICATION Spec
CONSTANTS Set <- TSet
INVARIANTS Acc
CHECK_DEADLOCK FALSE
