SPECIFICATION Spec
CONSTANTS Depth = 3 Ids = {"A", "B"}
INVARIANTS Good
