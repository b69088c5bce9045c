SPECIFICATION Spec
CONSTANTS W = 2 Depth = 4 Show = FALSE Broken = FALSE
INVARIANTS ExactIsLast LongestIsDown TableDecides
