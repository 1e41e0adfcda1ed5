SPECIFICATION Spec
CONSTANTS N3 = 3 Schemes = {"central", "third"} Vecs = {TRUE}
INVARIANTS Good
