SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Depth = 2
INVARIANTS Readable SameMeaning Stable
