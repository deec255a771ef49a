SPECIFICATION Spec
CONSTANT Words = 4
INVARIANTS Folds Spelled Short Orderless Default Sound Final
CHECK_DEADLOCK FALSE
