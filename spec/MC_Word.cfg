SPECIFICATION Spec
INVARIANT Laws
CONSTANT LB = 2
