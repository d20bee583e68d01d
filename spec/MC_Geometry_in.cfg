SPECIFICATION Spec
CONSTANTS G = 2 What = "in"
INVARIANTS RayMeaning SatMeaning InMeaning
CHECK_DEADLOCK FALSE
