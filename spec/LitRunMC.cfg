SPECIFICATION Spec
CONSTANTS
  MaxLines = 2
  MaxCmds = 2
  MaxRetries = 2
INVARIANTS NotRunWhenNotMet StatusOfWhatIsNotRun Expectation Bounded AgainOnlyAfterFailure StopsAtFirstSuccess AllRetriesUsed Flaky PassMeansAllLines ReportOrder EveryLineBegun EveryTryRan
PROPERTIES InOrder LineAfterSuccess Ends
CHECK_DEADLOCK FALSE
