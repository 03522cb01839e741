SPECIFICATION Spec
CONSTANTS NINSTR = 2 NSRC = 2 NLINES = 2 NENG = 2
INVARIANTS EnvRight EditRight EngRight EngSame
