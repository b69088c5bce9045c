SPECIFICATION Spec
CONSTANTS MaxL = 1 Show = FALSE
INVARIANTS NoCap
