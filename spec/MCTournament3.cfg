SPECIFICATION MSpec
CONSTANTS MAXV = 5
 ROUNDS = 2
 AGENTS = 3
 ITERS = 3
 NEWROOTS = 2
 NDEL = 2
 KNUM = 1
 KDEN = 2
 SCORES = {0, 1}
INVARIANTS Live Holds
CHECK_DEADLOCK FALSE
