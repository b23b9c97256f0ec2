SPECIFICATION Spec
CONSTANT MaxLen = 3
CHECK_DEADLOCK FALSE
INVARIANTS Laws Ordered Orbits
