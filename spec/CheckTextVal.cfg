SPECIFICATION Spec
CONSTANTS
  CaseAt <- ReadCase
  CaseIds <- TextIds
INVARIANTS TypeOKEnd Ordered InRegion
CHECK_DEADLOCK FALSE
