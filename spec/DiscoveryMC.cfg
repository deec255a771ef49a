SPECIFICATION Spec
CONSTANT MaxInputs = 2
INVARIANTS Exactly Sound Everything
PROPERTY Ends
CHECK_DEADLOCK FALSE
