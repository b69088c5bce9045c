SPECIFICATION Spec
CONSTANTS
 Workers = {1, 2}
 Conns = {1, 2, 3}
 Rate = 2
 Burst = 3
 Over = 1
 Step = 3
 Ticks = 6
 Wrap = 5
 Back = 2
 Patience = 3
 Stalls = 1
 Bug = "none"
INVARIANTS Bound Places
