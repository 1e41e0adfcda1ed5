SPECIFICATION Spec
CONSTANTS Depth = 2 Sets = {"I", "J"}
INVARIANTS LastWins
PROPERTIES Related
