SPECIFICATION Spec
CONSTANTS NT = 3
  NA = 1
  Success = TRUE
INVARIANTS Right PathOK Same
PROPERTY Ends
CHECK_DEADLOCK FALSE
