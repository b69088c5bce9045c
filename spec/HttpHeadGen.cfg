SPECIFICATION Spec
CONSTANTS MaxH = 2 Show = TRUE
INVARIANTS Emit
