SPECIFICATION Spec
CONSTANTS
 Workers = {1, 2}
 Conns = {1, 2, 3}
 Rate = 2
 Burst = 6
 Over = 1
 Step = 6
 Ticks = 5
 Wrap = 5
 Back = 2
 Patience = 3
 Stalls = 1
 Bug = "each"
INVARIANTS Bound
