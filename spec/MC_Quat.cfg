SPECIFICATION Spec
INVARIANTS Laws Group Euler
CONSTANT R = 2
