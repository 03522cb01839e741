SPECIFICATION Spec
CONSTANTS MaxRuns = 2
  Vals = {0, 1}
INVARIANT Agree
INVARIANT Distributed
CHECK_DEADLOCK FALSE
