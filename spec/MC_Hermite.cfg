SPECIFICATION Spec
CONSTANTS Dims = {1, 2, 3} Etas = {0, 3}
INVARIANTS Good
