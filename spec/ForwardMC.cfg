SPECIFICATION Spec
CONSTANTS N = 3
 Set <- MSet
INVARIANTS Authentic Known NoSpoof EndToEnd AllThere
CHECK_DEADLOCK FALSE
