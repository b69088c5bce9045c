SPECIFICATION Spec
CONSTANTS MaxT = 5 Show = TRUE
INVARIANTS Normalised Idempotent Containment NoSecret Emit
