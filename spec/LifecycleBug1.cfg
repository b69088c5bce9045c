SPECIFICATION Spec
CONSTANTS
 N = 3
 Hups = 2
 Kills = 0
 MaxConns = 1
 MayBad = FALSE
 Bug = "early"
PROPERTIES NoGap
