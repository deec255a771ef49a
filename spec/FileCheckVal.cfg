SPECIFICATION Spec
CONSTANTS
  CaseAt <- RecordedCase
  CaseIds <- RecordedIds
INVARIANTS TypeOKEnd Ordered InRegion
CHECK_DEADLOCK FALSE
