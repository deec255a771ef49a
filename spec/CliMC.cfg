SPECIFICATION Spec
CONSTANT Words = 3
INVARIANTS Folds Spelled Aliases Elsewhere Nothing Sound Final
CHECK_DEADLOCK FALSE
