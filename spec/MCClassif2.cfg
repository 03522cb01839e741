SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NC = 2
 MAXG = 8
 ROOTS = 6
 CLASSES = 2
 SCORES = {0,1}
 RATIOS = {0,1,2,3}
INVARIANTS TableOK F1OK ScoreOK SelOK
