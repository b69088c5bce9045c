CONSTANTS N = 2
 Reqs = {1, 2, 3}
 Method = "sqf"
 Toggles = 2
 NoTimer = FALSE
 LeakLoad = FALSE
 Again = FALSE
SPECIFICATION Spec
INVARIANTS Load OnceOnly Waits Timed
CHECK_DEADLOCK FALSE
