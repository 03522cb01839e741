SPECIFICATION Spec
CONSTANTS
  NGEN = 2
  MAXT = 2
  VAL = FALSE
  Order <- MCOrder
INVARIANTS WitnessRight ReturnRight RowsRight PolicyRight
CHECK_DEADLOCK TRUE
