CONSTANTS Depth = 2 NQUse = 2 Sizes = {0, 1, 3} Emit = TRUE Bug = FALSE
INIT Init
NEXT Next
INVARIANT Inv
VIEW View
