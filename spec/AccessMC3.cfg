SPECIFICATION Spec
CONSTANTS W = 3 Depth = 3 Show = TRUE Broken = FALSE
INVARIANTS ExactIsLast LongestIsDown TableDecides Emit
