SPECIFICATION Spec
CONSTANT MaxWords = 4
INVARIANTS Succeeds OnceAtMost Verbatim Ends
CHECK_DEADLOCK FALSE
