SPECIFICATION Spec
CONSTANTS
  MaxIn = 6
  OutBuf = 2
  Flush = "loop"
  OnCut = "reset"
INVARIANTS
  VacCut
