SPECIFICATION Spec
CONSTANTS CAP = 3 NPROG = 2 NVAL = 2 LEN = 5
INVARIANTS Bounded SnapsExact Fifo Snapshots PerProgram Novelty
PROPERTY Refines
