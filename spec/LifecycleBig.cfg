SPECIFICATION Spec
CONSTANTS
 N = 4
 Hups = 3
 Kills = 0
 MaxConns = 1
 MayBad = TRUE
 Bug = "none"
INVARIANTS Kept Two
PROPERTIES NoGap Ends Takes Stable
