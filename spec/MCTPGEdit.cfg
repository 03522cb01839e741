SPECIFICATION Spec
CONSTANTS NV = 3  NE = 3  NP = 1  TWO = FALSE
INVARIANTS AllConsistent NoSharing RootsAre
