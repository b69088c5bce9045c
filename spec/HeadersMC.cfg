SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS NoSplit Exact
CHECK_DEADLOCK FALSE
