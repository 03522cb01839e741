SPECIFICATION Spec
CONSTANTS MaxV = 5 Adds = 1 Arr = 3 Known = {}
INVARIANTS WellFormed OldIntact
PROPERTY Growth
