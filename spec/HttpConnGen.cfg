SPECIFICATION GSpec
CONSTANTS MaxReq = 4
          DrainBug = FALSE
INVARIANTS Emit
