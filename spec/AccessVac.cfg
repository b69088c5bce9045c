SPECIFICATION Spec
CONSTANTS W = 2 Depth = 2 Show = FALSE Broken = TRUE
INVARIANTS LongestIsDown
