SPECIFICATION Spec
CONSTANTS M = 5 Radii = {0, 1, 2, 3, 5, 7}
INVARIANTS Good
