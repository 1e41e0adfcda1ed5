SPECIFICATION Spec
CONSTANTS N = 24 Pad = 3
INVARIANTS Good
