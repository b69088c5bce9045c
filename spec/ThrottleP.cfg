SPECIFICATION Spec
CONSTANTS
 Workers = {1, 2}
 Conns = {1, 2, 3}
 Rate = 3
 Burst = 4
 Over = 1
 Step = 3
 Ticks = 12
 Wrap = 5
 Back = 0
 Patience = 5
 Stalls = 0
 Bug = "none"
INVARIANTS Bound Progress
