SPECIFICATION Spec
CONSTANTS
MaxTests = 3
MaxWorkers = 2
MaxRetries = 1
Lens = {1}
Never = 9
Limits = {0}
CHECK_DEADLOCK FALSE
INVARIANTS EveryTestIsSomewhereOnce AtMostWorkers NothingLost AllRunUnlessBroken NotSelectedNotRun OwnStatus ExitTells WithinLimit TimeoutOnlyWhenLate InTimeNotAffected TimeoutNotRetried
PROPERTY Ends
