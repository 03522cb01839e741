SPECIFICATION MCSpec
CONSTANTS MaxLen = 2  Ids = {1}  EMIT = TRUE
INVARIANTS Emit
