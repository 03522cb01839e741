SPECIFICATION Spec
CONSTANTS CAP = 3 NPROG = 2 NVAL = 2 LEN = 6
INVARIANTS Bounded SnapsExact Fifo Snapshots PerProgram Novelty
PROPERTY Refines
