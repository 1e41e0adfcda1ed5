SPECIFICATION Spec
CONSTANTS Starts = {16, 11, 40} Spans = {0, 1, 2, 3, 7, 8} Dts = {1, 2, 3}
INVARIANTS StepIsGiven Automatic Clock NotBefore NotAfter Count NeverLate
PROPERTIES Ends
