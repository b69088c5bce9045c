SPECIFICATION Spec
CONSTANTS MaxLen=10
Mode="dec"
INVARIANTS EndIffBody Decoded NoMore
