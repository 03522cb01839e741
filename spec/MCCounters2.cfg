SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
  MaxRuns = 3
  Vals = {0, 1, 9999}
INVARIANT Exact
INVARIANT Decides
CHECK_DEADLOCK FALSE
