SPECIFICATION MCSpec
CONSTANTS MaxReq = 2
          DrainBug = FALSE
INVARIANTS InOrder OneFinal NoSkip Boundary NeverAhead AnswersOnlySent NothingAfterClose ClosedMeansWanted
PROPERTY Answered
