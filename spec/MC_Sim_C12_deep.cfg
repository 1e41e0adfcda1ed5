SPECIFICATION Spec
CONSTANTS Depth = 6 Ids = {"A"}
INVARIANTS Good
