SPECIFICATION Spec
CONSTANTS
  NGEN = 2
  MAXT = 2
  VAL = TRUE
  Order <- MCOrder2
INVARIANTS WitnessRight ReturnRight RowsRight PolicyRight
CHECK_DEADLOCK TRUE
