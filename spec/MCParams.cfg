CONSTANTS Vals = {1, 2}
 Depth = 3
 Objs = {1, 2}
 Files = {"x"}
 Size = 3
SPECIFICATION Spec
INVARIANTS Loaded RoundTrip Harmless
CHECK_DEADLOCK FALSE
