SPECIFICATION Spec
INVARIANTS Laws Rounding Sides
CONSTANTS One = 16
 R = 12
