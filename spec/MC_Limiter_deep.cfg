SPECIFICATION Spec
CONSTANTS M = 6
INVARIANTS Good
