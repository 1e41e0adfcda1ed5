SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 2}
VIEW View
INVARIANTS Shape
PROPERTIES Separate Means
