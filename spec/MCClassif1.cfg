SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NC = 3
 MAXG = 4
 ROOTS = 6
 CLASSES = 1
 SCORES = {0,1}
 RATIOS = {0,2,3,6}
INVARIANTS TableOK F1OK ScoreOK SelOK
