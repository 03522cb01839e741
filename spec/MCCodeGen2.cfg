SPECIFICATION Spec
CONSTANTS Graphs <- MCGraphs
  Vals <- MCVals
  MaxCalls = 2
INVARIANT SameDecision
INVARIANT NamesOK

CHECK_DEADLOCK FALSE
