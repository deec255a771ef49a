SPECIFICATION Spec
CONSTANTS
  CaseAt <- RecordedCase
  CaseIds <- RecordedIds
INVARIANTS TypeOKEnd CulpritEnd
CHECK_DEADLOCK FALSE
