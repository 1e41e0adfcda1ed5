SPECIFICATION Spec
CONSTANTS N3 = 2 Schemes = {"third"} Vecs = {FALSE}
INVARIANTS Good
