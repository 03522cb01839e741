SPECIFICATION Spec
CONSTANT NH = 2
INVARIANT HashCurrent
PROPERTY Isolation
PROPERTY ClonesFaithful
