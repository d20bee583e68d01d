SPECIFICATION Spec
INVARIANT Emit
CONSTANT Depth = 12
