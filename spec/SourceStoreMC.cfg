SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Ops = 4
INVARIANTS LoadedIsThere HandlesStay NamesApart Edited
