SPECIFICATION Spec
CONSTANTS MaxN = 2 Show_ = FALSE
INVARIANTS NeverFails
