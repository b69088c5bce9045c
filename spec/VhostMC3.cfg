CONSTANTS MaxH = 4
 MaxT = 2
 MaxP = 2
 Show = FALSE
SPECIFICATION Spec
INVARIANTS NoClimb Beneath HostOnly
CHECK_DEADLOCK FALSE
