SPECIFICATION Spec
CONSTANTS M = 3
INVARIANTS Good
