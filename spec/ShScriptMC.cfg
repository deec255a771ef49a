SPECIFICATION Spec
CONSTANTS
  MaxText = 5
  MaxDirectives = 5
INVARIANTS Protected StaysAsIs Stood Whole1 ErrorsExact RunsOnly NoneLeft
CHECK_DEADLOCK FALSE
