SPECIFICATION Spec
CONSTANT Words = 4
INVARIANTS Folds Spelled Aliases Elsewhere Nothing Sound Final
CHECK_DEADLOCK FALSE
