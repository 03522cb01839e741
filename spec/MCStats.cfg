SPECIFICATION Spec
CONSTANTS NT = 2
  NA = 2
  MaxOut = 2
  NP = 3
INVARIANT Right
PROPERTY Grows
CHECK_DEADLOCK FALSE
