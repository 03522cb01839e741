SPECIFICATION Spec
INVARIANT Sound
PROPERTY Ends
