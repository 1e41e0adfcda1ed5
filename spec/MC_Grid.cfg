SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxPad = 2
INVARIANTS Bijective InteriorInside Centres Encloses
