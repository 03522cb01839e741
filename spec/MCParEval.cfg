SPECIFICATION MSpec
CONSTANTS NJ = 3
 NW = 3
 CAP = 2
 EMIT = FALSE
INVARIANTS Equal Once
PROPERTY Ends
CHECK_DEADLOCK FALSE
