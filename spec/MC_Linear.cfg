SPECIFICATION Spec
CONSTANTS N = 4 Pad = 1
INVARIANTS Good
