SPECIFICATION Spec
CONSTANTS MaxLen=11
Mode="dec"
INVARIANTS Vac
