SPECIFICATION MCSpec
CONSTANTS MaxReq = 3
          DrainBug = TRUE
INVARIANTS InOrder OneFinal NoSkip Boundary NeverAhead AnswersOnlySent NothingAfterClose ClosedMeansWanted
