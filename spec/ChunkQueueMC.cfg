CONSTANTS Depth = 4 NQUse = 2 Sizes = {0, 2} Emit = FALSE Bug = FALSE
INIT Init
NEXT Next
INVARIANT Inv
VIEW View
