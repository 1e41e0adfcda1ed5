SPECIFICATION Spec
CONSTANTS Nodes = 2 Calls = {1} Scratch = FALSE
INVARIANTS NoConflict AsAlone GridKept
