SPECIFICATION Spec
CONSTANTS Graphs <- SmallGraphs
  Vals <- MCVals
  MaxCalls = 2
INVARIANT SameDecision
INVARIANT NamesOK
PROPERTY Ends
CHECK_DEADLOCK FALSE
