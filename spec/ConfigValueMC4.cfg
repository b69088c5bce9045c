SPECIFICATION Spec
CONSTANTS MaxN = 4 Show_ = FALSE
INVARIANTS Balanced Prefixed Hidden
