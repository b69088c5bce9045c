SPECIFICATION TSpec
CONSTANTS
 N = 14
 Hups = 1000
 Kills = 1000
 MaxConns = 1000
 MayBad = TRUE
 Bug = "none"
INVARIANTS At
CHECK_DEADLOCK FALSE
