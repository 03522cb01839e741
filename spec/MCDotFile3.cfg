SPECIFICATION Spec
CONSTANTS NE = 3
 Dups = FALSE
INVARIANTS RoundTrip Discriminates
CHECK_DEADLOCK FALSE
