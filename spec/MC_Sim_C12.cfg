SPECIFICATION Spec
CONSTANTS Depth = 4 Ids = {"A"}
INVARIANTS Good
