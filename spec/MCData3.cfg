SPECIFICATION Spec
CONSTANT NH = 3
INVARIANT HashCurrent
PROPERTY Isolation
PROPERTY ClonesFaithful
