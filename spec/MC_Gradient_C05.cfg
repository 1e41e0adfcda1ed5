SPECIFICATION Spec
CONSTANTS N3 = 2 Schemes = {"central"} Vecs = {FALSE}
INVARIANTS Good
