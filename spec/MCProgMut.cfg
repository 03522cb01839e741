SPECIFICATION Spec
INVARIANT Valid
PROPERTY Refines
