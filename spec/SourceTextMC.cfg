SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Length = 4
 Added = 2
INVARIANTS Inverse OnePlaceEach LinesMakeText EditIsLocal
