SPECIFICATION Spec
CONSTANTS Starts = {16, 11, 40, 0, 19} Spans = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13} Dts = {1, 2, 3, 4, 5, 8}
INVARIANTS StepIsGiven Automatic Clock NotBefore NotAfter Count NeverLate
PROPERTIES Ends
