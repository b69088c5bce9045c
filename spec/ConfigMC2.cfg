SPECIFICATION Spec
CONSTANTS MaxL = 2 Show = TRUE
INVARIANTS One Swap Restore Morgan Chain Emit
