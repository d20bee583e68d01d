SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Depth = 3
 One = 16
