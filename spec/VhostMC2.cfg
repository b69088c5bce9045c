CONSTANTS MaxH = 2
 MaxT = 1
 MaxP = 2
 Show = TRUE
SPECIFICATION Spec
INVARIANTS NoClimb Beneath HostOnly Emit
CHECK_DEADLOCK FALSE
