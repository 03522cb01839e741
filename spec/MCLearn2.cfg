SPECIFICATION MSpec
CONSTANTS NV = 6
 NA = 2
 ROOTS = 3
 GENS = 3
 RATIOS = {3, 6, 8}
 SCORES = {0, 1}
 MAXEVAL = 2
INVARIANTS Live Recorded BestIsBest NeverTooMany
PROPERTY Refines
CHECK_DEADLOCK FALSE
