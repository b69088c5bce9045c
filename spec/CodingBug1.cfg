SPECIFICATION Spec
CONSTANTS
  Names = {"gzip", "deflate", "*"}
  Choice = "listed"
  Tagging = "coded"
  VaryOn = TRUE
INVARIANTS
  RightChoice
  OneTagOneBody
  CacheRight
