SPECIFICATION Spec
CONSTANTS N3 = 3 Schemes = {"central"} Vecs = {FALSE}
INVARIANTS Good
