SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NC = 2
 MAXG = 5
 ROOTS = 5
 CLASSES = 2
 SCORES = {0,1}
 RATIOS = {0,2}
INVARIANTS TableOK F1OK ScoreOK SelOK
