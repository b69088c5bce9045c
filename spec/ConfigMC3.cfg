SPECIFICATION Spec
CONSTANTS MaxL = 3 Show = TRUE
INVARIANTS One Swap Restore Morgan Chain Emit
