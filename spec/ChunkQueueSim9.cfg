CONSTANTS Depth = 9 NQUse = 2 Sizes = {1, 2, 3} Emit = TRUE Bug = FALSE
INIT Init
NEXT NextSim
INVARIANT Inv
VIEW View
