SPECIFICATION Spec
CONSTANTS M = 2 Radii = {0, 1, 3}
INVARIANTS Good
