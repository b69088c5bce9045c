SPECIFICATION Spec
CONSTANTS MaxH = 2 Show = FALSE
INVARIANTS TypeOk EndsThere Unambiguous OneHost NoControl
