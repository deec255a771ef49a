SPECIFICATION Spec
CONSTANTS
  CaseAt <- CliCase
  CaseIds <- CliIds
INVARIANTS TypeOKEnd
CHECK_DEADLOCK FALSE
