SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS KeepsAll NearestIsNearest NoneAbove ChildrenSplit FilesAreLeaves
