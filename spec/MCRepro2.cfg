SPECIFICATION MSpec
CONSTANTS AGENTS = {a1, a2}
 SEEDS = {1, 2}
 GENS = 4
 INITS = 5
INVARIANT Functional
PROPERTY Refines
CHECK_DEADLOCK FALSE
