SPECIFICATION Spec
CONSTANTS
  Res = {1, 2}
  Procs = {1, 2}
  MaxVer = 2
  Len0 = 2
  Naming = "full"
  Temp = "own"
  OnCut = "drop"
INVARIANTS
  Vac
