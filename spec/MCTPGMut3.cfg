SPECIFICATION Spec
CONSTANTS MaxV = 6 Adds = 2 Arr = 2 Known = {}
INVARIANTS WellFormed OldIntact
PROPERTY Growth
