SPECIFICATION Spec
CONSTANTS
 N = 3
 Hups = 2
 Kills = 1
 MaxConns = 1
 MayBad = TRUE
 Bug = "none"
INVARIANTS Kept Two
PROPERTIES NoGap Ends Takes Stable
