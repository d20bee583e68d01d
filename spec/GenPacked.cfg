SPECIFICATION Spec
INVARIANT Emit
CONSTANT Depth = 40
