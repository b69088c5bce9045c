SPECIFICATION Spec
CONSTANTS
 N = 3
 Hups = 2
 Kills = 0
 MaxConns = 1
 MayBad = TRUE
 Bug = "lost"
PROPERTIES Takes
