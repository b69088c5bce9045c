SPECIFICATION Spec
CONSTANTS Reqs = {a, b}
 MaxPending = 2
 MaxListen = 3
INVARIANTS TypeOK Bound Excused
PROPERTIES Served Ends
CHECK_DEADLOCK FALSE
