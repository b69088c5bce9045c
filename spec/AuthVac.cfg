SPECIFICATION Spec
CONSTANTS TTL = 1 MaxT = 4 Texts = {"one","bad"} Bug = FALSE
INVARIANTS NeverReloads
CHECK_DEADLOCK FALSE
