SPECIFICATION Spec
CONSTANTS Vals = {0, 1}
VIEW View
INVARIANTS Shape
PROPERTIES Separate Means
