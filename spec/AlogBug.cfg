CONSTANTS Bytes = {9, 10, 34, 48, 65, 92, 110, 120, 127, 200, 255}
 N = 0
 Reqs = {1,2,3}
 Workers = {1, 2}
 FlushAtStop = FALSE
 Lossy = FALSE
SPECIFICATION Spec
INVARIANTS Once Complete
CHECK_DEADLOCK FALSE
