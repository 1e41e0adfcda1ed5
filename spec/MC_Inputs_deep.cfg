SPECIFICATION Spec
CONSTANTS Depth = 3 Sets = {"I"}
INVARIANTS LastWins
PROPERTIES Related
