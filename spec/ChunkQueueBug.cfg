CONSTANTS Depth = 3 NQUse = 2 Sizes = {0, 2} Emit = FALSE Bug = TRUE
INIT Init
NEXT Next
INVARIANT Inv
VIEW View
