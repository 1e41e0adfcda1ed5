SPECIFICATION Spec
CONSTANTS Vals = {1, 2, 3}
INVARIANTS Good
