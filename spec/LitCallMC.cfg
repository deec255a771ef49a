SPECIFICATION Spec
CONSTANT Words = 3
INVARIANTS Folds Spelled Short Orderless Default Sound Final
CHECK_DEADLOCK FALSE
