SPECIFICATION Spec
CONSTANTS N = 4
 Set <- MSet
INVARIANTS Authentic Known NoSpoof EndToEnd AllThere
CHECK_DEADLOCK FALSE
