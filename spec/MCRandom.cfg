SPECIFICATION Spec
CONSTANTS
  BITS = 3
  WBITS = 4
INVARIANTS InBounds Right Rejected
