SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NC = 3
 MAXG = 5
 ROOTS = 6
 CLASSES = 1
 SCORES = {0,1,2}
 RATIOS = {0,2,3}
INVARIANTS TableOK F1OK ScoreOK SelOK
