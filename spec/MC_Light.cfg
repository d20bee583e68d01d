SPECIFICATION Spec
INVARIANT Laws
CONSTANT MaxDim = 12
