SPECIFICATION Spec
CONSTANTS MaxLen=7
Mode="dec"
INVARIANTS EndIffBody Decoded NoMore Emit
