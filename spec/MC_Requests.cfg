SPECIFICATION Spec
CONSTANTS MostFlaws = 1 Kinds = {"vec3", "file", "turn", "hole", "run"}
INVARIANTS Total NoOutputOfRefused Unordered RunNeedsFile Harmless
PROPERTIES Monotone
