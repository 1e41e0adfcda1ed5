SPECIFICATION Spec
VIEW View
INVARIANTS Tree Honest
PROPERTIES Local Keeps
