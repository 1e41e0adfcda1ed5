SPECIFICATION Spec
CONSTANTS Runs = 2 Steps1 = {0, 1, 2, 3, 4} Everys = {1, 2, 3, 5} Ranks = {1, 2} ReplayAll = TRUE
INVARIANTS Complete Fresh InOrder LastShown
PROPERTIES Ends
