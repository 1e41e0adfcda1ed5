SPECIFICATION Spec
CONSTANTS N3 = 3 Schemes = {"third"} Vecs = {FALSE}
INVARIANTS Good
