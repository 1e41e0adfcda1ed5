SPECIFICATION Spec
CONSTANTS Domains = {"unit", "inner", "shift", "wide"} Sizes = {2, 3, 4} Dts = {4} Schemes = {"SuperConsistent", "Heuns"} Backs = {"RK3", "Euler"} MaxSteps = 1
INVARIANTS Jacobian Area Consistent Walls Near Cubic Differences
PROPERTIES SelfConsistent
