SPECIFICATION Spec
CONSTANT MaxInputs = 3
INVARIANTS Exactly Sound Everything
PROPERTY Ends
CHECK_DEADLOCK FALSE
