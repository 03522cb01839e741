SPECIFICATION Spec
CONSTANTS NE = 2
 Dups = TRUE
INVARIANTS RoundTrip Discriminates
CHECK_DEADLOCK FALSE
