SPECIFICATION Spec
CONSTANTS P = 12 H = 1 L = 3 R = 2 S = 3 KB = 2 KC = 2 Bug = "unlimited"
INVARIANTS Conserve Bounded Working
PROPERTIES Delivered
CHECK_DEADLOCK FALSE
