SPECIFICATION MCSpec
CONSTANTS MaxLen = 1  Ids = {1, 2}  EMIT = FALSE
INVARIANTS InvMarks InvIdent
