CONSTANTS Depth = 30 NQUse = 3 Sizes = {0, 1, 2, 3, 5} Emit = TRUE Bug = FALSE
INIT Init
NEXT NextSim
INVARIANT Inv
VIEW View
