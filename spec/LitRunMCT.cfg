SPECIFICATION Spec
CONSTANTS
  MaxLines = 3
  MaxCmds = 2
  MaxRetries = 3
INVARIANTS NotRunWhenNotMet StatusOfWhatIsNotRun Expectation Bounded AgainOnlyAfterFailure StopsAtFirstSuccess AllRetriesUsed Flaky PassMeansAllLines ReportOrder EveryLineBegun EveryTryRan
PROPERTIES InOrder LineAfterSuccess Ends
CHECK_DEADLOCK FALSE
