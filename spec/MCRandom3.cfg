SPECIFICATION Spec
CONSTANTS
  BITS = 4
  WBITS = 6
INVARIANTS InBounds Right Rejected
