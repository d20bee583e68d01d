SPECIFICATION Spec
CONSTANTS G = 2 What = "tri"
INVARIANTS RayMeaning SatMeaning InMeaning
CHECK_DEADLOCK FALSE
