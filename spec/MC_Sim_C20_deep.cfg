SPECIFICATION Spec
CONSTANTS Depth = 4 Ids = {"A", "B"}
INVARIANTS Good
