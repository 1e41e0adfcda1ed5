SPECIFICATION Spec
CONSTANTS N3 = 2 Schemes = {"central", "third"} Vecs = {TRUE}
INVARIANTS Good
