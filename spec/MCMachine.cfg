SPECIFICATION MCSpec
CONSTANTS MaxLen = 3  Ids = {1}  EMIT = FALSE
INVARIANTS InvMarks InvClear
