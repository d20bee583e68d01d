SPECIFICATION Spec
CONSTANTS G = 2 What = "ray"
INVARIANTS RayMeaning SatMeaning InMeaning
CHECK_DEADLOCK FALSE
