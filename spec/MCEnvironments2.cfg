SPECIFICATION Spec
CONSTANTS NINSTR = 3 NSRC = 2 NLINES = 3 NENG = 2
INVARIANTS EnvRight EditRight EngRight EngSame
