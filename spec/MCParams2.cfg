CONSTANTS Vals = {1, 2}
 Depth = 4
 Objs = {1, 2}
 Files = {"x", "y"}
 Size = 1
SPECIFICATION Spec
INVARIANTS Loaded RoundTrip Harmless
CHECK_DEADLOCK FALSE
