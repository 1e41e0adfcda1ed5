SPECIFICATION Spec
CONSTANTS Rows = 2 MaxSteps = 2 Teams = {1, 2} Caps = {0, 1, 6} RankCounts = {1, 2}
INVARIANTS OneWriter InStep Result NoLetterLeft Moving
PROPERTIES Ends
