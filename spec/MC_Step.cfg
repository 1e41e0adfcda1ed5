SPECIFICATION Spec
CONSTANTS Dims = {1, 2} Shifts = {4, 8, 11}
INVARIANTS Good
