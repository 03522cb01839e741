SPECIFICATION Spec
CONSTANTS NT = 4
  NA = 0
  Success = FALSE
INVARIANTS Right PathOK Same
CHECK_DEADLOCK FALSE
