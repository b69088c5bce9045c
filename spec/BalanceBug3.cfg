CONSTANTS N = 2
 Reqs = {1, 2}
 Method = "rr"
 Toggles = 2
 NoTimer = TRUE
 LeakLoad = FALSE
 Again = FALSE
SPECIFICATION FSpec
PROPERTIES Served
CHECK_DEADLOCK FALSE
