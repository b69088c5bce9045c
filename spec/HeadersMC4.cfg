SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS NoSplit Exact
CHECK_DEADLOCK FALSE
