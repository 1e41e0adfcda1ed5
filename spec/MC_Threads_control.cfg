SPECIFICATION Spec
CONSTANTS Nodes = 2 Calls = {1} Scratch = TRUE
INVARIANTS AsAlone
