SPECIFICATION Spec
CONSTANTS
  MaxText = 7
  MaxDirectives = 6
INVARIANTS Protected StaysAsIs Stood Whole1 ErrorsExact RunsOnly NoneLeft
CHECK_DEADLOCK FALSE
