SPECIFICATION Spec
CONSTANTS Domains = {"unit", "left", "inner", "shift", "wide"} Sizes = {2, 3, 5, 6} Dts = {2, 4, 7} Schemes = {"SuperConsistent", "Heuns"} Backs = {"RK3", "Euler"} MaxSteps = 3
INVARIANTS Jacobian Area Consistent Walls Near Cubic Differences
PROPERTIES SelfConsistent
