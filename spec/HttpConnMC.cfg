SPECIFICATION MCSpec
CONSTANTS MaxReq = 3
          DrainBug = FALSE
INVARIANTS InOrder OneFinal NoSkip Boundary NeverAhead AnswersOnlySent NothingAfterClose ClosedMeansWanted
