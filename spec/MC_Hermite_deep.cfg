SPECIFICATION Spec
CONSTANTS Dims = {1, 2, 3} Etas = {0, 1, 4, 7}
INVARIANTS Good
