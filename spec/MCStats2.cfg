SPECIFICATION Spec
CONSTANTS NT = 3
  NA = 2
  MaxOut = 2
  NP = 1
INVARIANT Right
CHECK_DEADLOCK FALSE
