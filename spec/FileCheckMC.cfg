SPECIFICATION Spec
CONSTANTS
  CaseAt <- EnumCase
  CaseIds <- EnumIds
INVARIANTS TypeOKEnd Ordered InRegion PlainLeftmost NextOnNextLine SameOnSameLine EmptyOnEmptyLine CountTimes DagDisjoint NotsAbsent LabelRegions
CHECK_DEADLOCK FALSE
