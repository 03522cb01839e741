SPECIFICATION MSpec
CONSTANTS MAXV = 7
 ROUNDS = 3
 AGENTS = 2
 ITERS = 1
 NEWROOTS = 1
 NDEL = 1
 KNUM = 2
 KDEN = 3
 SCORES = {0, 1}
INVARIANTS Live Holds
CHECK_DEADLOCK FALSE
