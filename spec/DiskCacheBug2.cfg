SPECIFICATION Spec
CONSTANTS
  Res = {1, 2}
  Procs = {1, 2}
  MaxVer = 2
  Len0 = 2
  Naming = "full"
  Temp = "shared"
  OnCut = "drop"
INVARIANTS
  Exact
  Whole
