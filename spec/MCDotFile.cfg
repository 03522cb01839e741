SPECIFICATION Spec
CONSTANTS NE = 2
 Dups = FALSE
INVARIANTS RoundTrip Discriminates
CHECK_DEADLOCK FALSE
