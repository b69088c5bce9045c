SPECIFICATION Spec
CONSTANTS Reqs = {a, b, c}
 MaxPending = 2
 MaxListen = 3
INVARIANTS TypeOK Bound Excused
CHECK_DEADLOCK FALSE
