SPECIFICATION MSpec
CONSTANTS NJ = 5
 NW = 3
 CAP = 1
 EMIT = TRUE
INVARIANTS Equal Emit
CHECK_DEADLOCK FALSE
