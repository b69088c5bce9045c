SPECIFICATION Spec
CONSTANTS MaxL = 4 Show = FALSE
INVARIANTS One Swap Restore Morgan Chain
