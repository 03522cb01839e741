SPECIFICATION Spec
CONSTANTS
  BITS = 5
  WBITS = 4
INVARIANTS InBounds Right Rejected
