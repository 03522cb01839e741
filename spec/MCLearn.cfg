SPECIFICATION MSpec
CONSTANTS NV = 5
 NA = 2
 ROOTS = 2
 GENS = 4
 RATIOS = {0, 4, 8}
 SCORES = {0, 1}
 MAXEVAL = 2
INVARIANTS Live Recorded BestIsBest NeverTooMany
PROPERTY Refines
CHECK_DEADLOCK FALSE
