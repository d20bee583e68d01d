SPECIFICATION Spec
INVARIANT Emit
CONSTANTS Depth = 4
 Kinds = 8
