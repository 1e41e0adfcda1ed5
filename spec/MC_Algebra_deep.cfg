SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 2, 3, 4}
INVARIANTS Good
