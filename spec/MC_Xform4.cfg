SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Depth = 4
 One = 16
