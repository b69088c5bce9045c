SPECIFICATION Spec
CONSTANTS MaxN = 3 Show_ = TRUE
INVARIANTS Balanced Prefixed Hidden Emit
