CONSTANTS MaxH = 3
 MaxT = 2
 MaxP = 1
 Show = TRUE
SPECIFICATION Spec
INVARIANTS NoClimb Beneath HostOnly Emit
CHECK_DEADLOCK FALSE
