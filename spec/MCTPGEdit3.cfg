SPECIFICATION Spec
CONSTANTS NV = 4  NE = 3  NP = 2  TWO = FALSE
INVARIANTS AllConsistent NoSharing RootsAre
