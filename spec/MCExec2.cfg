SPECIFICATION Spec
CONSTANTS MaxRuns = 3
  Vals = {0, 1, 9999}
INVARIANT Agree
INVARIANT Distributed
CHECK_DEADLOCK FALSE
