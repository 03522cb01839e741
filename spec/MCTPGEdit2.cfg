SPECIFICATION Spec
CONSTANTS NV = 3  NE = 2  NP = 2  TWO = TRUE
INVARIANTS AllConsistent NoSharing RootsAre
PROPERTIES CascadeExact
