SPECIFICATION Spec
CONSTANTS Nodes = 2 Calls = {1, 2} Scratch = FALSE
INVARIANTS NoConflict AsAlone GridKept
