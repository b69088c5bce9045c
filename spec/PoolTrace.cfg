SPECIFICATION Spec
CONSTANTS Reqs = {}
 MaxPending = 128
INVARIANT Acc
CHECK_DEADLOCK FALSE
