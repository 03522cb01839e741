SPECIFICATION MSpec
CONSTANTS NJ = 4
 NW = 4
 CAP = 1
 EMIT = TRUE
INVARIANTS Equal Emit
CHECK_DEADLOCK FALSE
