SPECIFICATION Spec
CONSTANTS Runs = 2 Steps1 = {0, 1, 3} Everys = {1, 2, 5} Ranks = {1, 2} ReplayAll = FALSE
INVARIANTS Complete Fresh InOrder LastShown
PROPERTIES Ends
